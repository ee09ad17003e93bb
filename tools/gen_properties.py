#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=None)))

S='src/'
p('C01','Every transmitted observation is handled exactly once',
 'With a lossless transmitter (unbounded, or bounded and blocking) and the process-all strategy, every observation transmitted from any clone of the transmitter on any thread reaches every cockpit, panel, handler and instrument that accepts it exactly once, with its label, value, count and timestamp unchanged. Nothing is lost, duplicated, altered or invented, whatever the batch limit, the number of producers or the moment of transmission, and observations still queued when all transmitters are dropped are delivered too.',
 ['schedules','inputs','histories'],'All interleavings of producer threads with the driver thread, all message mixes, batch sizes and queue capacities.',
 'Depends on schedules of producers against the driver; the unit tests never run a transmitter against a driver concurrently.',
 [S+'lib.rs',S+'processor.rs',S+'driver.rs',S+'cockpit.rs',S+'instruments/panel.rs'],
 [('channel send per transmit','src/lib.rs TelemetryTransmitter::send'),('receive loop','src/processor.rs TelemetryProcessor::process'),('fan out','src/cockpit.rs, src/instruments/panel.rs handle_observation')],
 [('message queue','observations sent and not yet processed','src/processor.rs')],
 ['HandlesObservations::handle_observation of a recording handler','counter/meter values in snapshots'])
p('C02','Messages of one producer take effect in the order sent',
 'Observations and control messages (adding or removing cockpits, panels and handlers) sent one after the other - by one thread, or by several threads where one send happened before the other - take effect in exactly that order. In particular a handler added by a producer sees exactly the observations sent after it, and a removed panel or cockpit sees exactly those sent before its removal.',
 ['schedules','histories'],'All interleavings of several producers and all sequences of observations and control messages.',
 'An order violation needs a particular sequence or schedule across the queue; unit tests drive instruments directly.',
 [S+'lib.rs',S+'processor.rs'],
 [('single FIFO for data and control','src/processor.rs TelemetryMessage / TelemetryProcessor::process'),('transmitter clones share the channel','src/lib.rs TelemetryTransmitter')],
 [], ['recording handlers','snapshots'])
p('C03','Bounded queues keep their capacity, block or drop only when full',
 'A bounded transmitter never has more than its capacity of messages queued. When blocking is requested nothing is ever dropped and a sender waits only while the queue is full; when blocking is not requested a send always returns immediately, and a message is discarded only if the queue was full at that moment - everything that was accepted is later processed. Queue size, capacity, fullness and emptiness are reported truthfully.',
 ['schedules','configurations'],'All capacities, both blocking modes, all interleavings of senders and processing.',
 'No existing test creates a bounded pair.',
 [S+'lib.rs',S+'processor.rs'],
 [('send vs try_send','src/lib.rs TelemetryTransmitter::send'),('bounded channel creation','src/processor.rs TelemetryProcessor::create')],
 [('use_send','block when full','src/lib.rs')],['queue_size, is_queue_full','handled ids'])
p('C04','The application is isolated from the state of the backend',
 'No transmitter, attached mount or driver-handle operation ever panics or hangs the calling thread because the backend is not mounted, paused, stopped, dropped, or has died because a user component panicked: transmitting to a dead backend is silently ignored, and a snapshot request on a dead or stopped driver returns an error (immediately or as soon as the backend is gone) for both the synchronous and the asynchronous form, including requests already pending. The one documented exception is a blocking bounded sender waiting for a live but unserviced full queue.',
 ['fault_sequences','schedules','crash_points'],'All operations against all backend states, with the backend dying at any point while requests are pending.',
 'No test ever stops, drops or kills a driver or processor.',
 [S+'lib.rs',S+'driver.rs',S+'attached_mount.rs'],
 [('send errors swallowed','src/lib.rs TelemetryTransmitter::send'),('reply channel disconnects when the driver thread ends','src/driver.rs snapshot/snapshot_async'),('senders of mounts ignore errors','src/attached_mount.rs')],
 [],['return values','panic hook','canary thread'])
p('C05','A processing pass reports exactly what it did',
 'One processing pass takes at most the given number of messages from each queue, ends when the queue is empty, and reports exactly how many messages it processed, how many observations it dropped, how many instruments were updated, and how many messages are still queued. The reports of groups are the sums over their members, so over any history sent = processed + dropped + still queued.',
 ['histories','configurations'],'All batch limits (including zero and unlimited), message mixes, strategies and nesting of groups.',
 'No test calls the processing pass at all.',
 [S+'processor.rs',S+'attached_mount.rs',S+'cockpit.rs',S+'instruments/panel.rs'],
 [('pass counters','src/processor.rs TelemetryProcessor::process'),('summation','src/processor.rs ProcessingOutcome::combine_with, ProcessorMount::process')],
 [],['ProcessingOutcome'])
p('C06','The processing strategy decides exactly which observations are dropped',
 'Process-all drops nothing; drop-all drops every observation; drop-older-than drops exactly the observations whose timestamp is older than the configured age at the time of processing, except that delta observations (value changes) are kept unless dropping deltas was requested. Control messages are never dropped, dropped observations touch no instrument, and the default strategy is 30 seconds without dropping deltas.',
 ['inputs','histories','configurations'],'All strategies, ages, timestamps (including future ones), observation kinds and queues.',
 'No test processes observations under any strategy.',
 [S+'processor.rs',S+'observation.rs',S+'driver.rs'],
 [('decider','src/processor.rs ProcessingStrategy::decider, ProcessingDecider::should_be_processed'),('delta classification','src/observation.rs ObservedValue::is_delta')],
 [],['recording handlers','ProcessingOutcome'])
p('C07','A running driver serves every mounted component to completion',
 'While a driver is running and not paused, every component mounted on it is given the chance to process exactly once per collection run, in a single background thread owned by that driver, so no component is starved by another however large its backlog; once producers stop, all backlogs are drained within a number of runs proportional to their size. Components may be added, and drivers mounted under other drivers, at any time; a mounted driver keeps collecting on its own thread and contributes its snapshot to the outer one.',
 ['schedules','histories','configurations'],'All mounts, backlogs and times of mounting, restated as bounded progress in collection runs.',
 'Needs the background thread under load over many runs; no existing test runs a driver with load.',
 [S+'driver.rs',S+'processor.rs'],
 [('loop and run','src/driver.rs telemetry_loop, do_a_run'),('nested driver is not processed by the outer one','src/driver.rs impl ProcessesTelemetryMessages for TelemetryDriver')],
 [],['ProcessesTelemetryMessages::process calls on a heartbeat component'])
p('C08','Pause, resume and strategy changes apply exactly from when requested',
 'Pausing a driver stops all processing until it is resumed: after the pause has taken effect (requests to one driver from one thread take effect in order) no observation is processed, while snapshots, mounting and further requests keep working and nothing queued is lost; after resume everything queued is processed. A changed processing strategy applies to every collection run after the change and to none before it.',
 ['schedules','histories'],'All sequences of pause, resume, strategy change, snapshot and traffic.',
 'No test pauses, resumes or changes the strategy.',
 [S+'driver.rs'],
 [('driver message handling','src/driver.rs telemetry_loop')],
 [('paused','whether runs are suspended','src/driver.rs telemetry_loop')],['recording handlers','snapshots as barriers'])
p('C09','A driver lives as long as its handles and then releases everything',
 'A driver keeps collecting and answering as long as at least one clone of its handle exists, and when the last clone is dropped its background thread ends within a bounded number of loop turns and everything mounted on it (processors, handlers, snapshooters, instruments) is dropped exactly once, as are the observations and messages still queued (those in a bounded queue when its last transmitter is gone as well). Dropping one of several clones changes nothing.',
 ['schedules','histories'],'All numbers and drop orders of clones, with traffic, pause states and pending requests at the time of the drop.',
 'No test drops a driver and watches its thread and mounted components.',
 [S+'driver.rs'],
 [('drop guard','src/driver.rs DropGuard'),('loop exit','src/driver.rs telemetry_loop')],
 [('is_running','cleared by the last handle','src/driver.rs')],['Drop of mounted components','thread list'])
p('C10','A snapshot is a consistent cut of the processed observations',
 'Each driver snapshot shows a state between two observations, never in the middle of one: all instruments below the driver fed by the same observations agree with each other, values that only grow never decrease from one snapshot to the next, and what is shown corresponds to a prefix of each producer\'s observations. A snapshot requested after an observation was processed includes it, whether requested synchronously or asynchronously, from any clone and any number of threads at once.',
 ['schedules','histories'],'All interleavings of producers, concurrent snapshot requests and collection runs.',
 'Needs snapshots concurrent with traffic; no test takes a snapshot of a loaded driver.',
 [S+'driver.rs',S+'processor.rs'],
 [('snapshots are served by the collection thread between runs','src/driver.rs telemetry_loop')],
 [],['TelemetryDriver::snapshot, snapshot_async'])
p('C11','The driver metrics tell the truth about the driver',
 'When enabled (the default) every snapshot of a driver contains a `_metrix` group, and when disabled it contains none. The collection, processed, dropped, instruments-updated and snapshot counts in it equal what really happened, the collection and snapshot times are those of the runs and snapshots in microseconds, the per-mille share of an iteration spent in a run is recorded for every run that dropped nothing and processed at most 100 messages, the enqueued gauge shows the backlog left by the last run, the dropped-observations alarm is on from a run that dropped something until 60 s after the last such run, and the inactivity alarm is on exactly when no observation was seen for 60 s.',
 ['histories','schedules','configurations'],'All traffic histories over time, including long silent periods and drops.',
 'Needs hours of driver life and ground truth from outside; no test looks at the driver metrics.',
 [S+'driver.rs'],
 [('post collection update','src/driver.rs DriverInstruments::update_post_collection'),('post snapshot update','src/driver.rs DriverInstruments::update_post_snapshot')],
 [],['_metrix group of snapshots','a counting processor mounted beside'])
p('C12','Labels route observations exactly as configured',
 'An instrument, panel or handler receives an observation if and only if every label filter on the way to it accepts the label, for every way of writing a filter (one label, tuples, lists of any length, predicates, all, none, filters extended later) and every nesting of panels. A panel feeds every instrument, nested panel and handler put into it - also second and further instruments of the same kind - and update modifiers change only what their own instrument sees.',
 ['inputs','configurations'],'All labels, filter forms, filter sizes and panel nestings.',
 'Tests check filters in isolation for few sizes, never whole routing trees.',
 [S+'instruments/label_filter.rs',S+'instruments/panel.rs',S+'instruments/instrument_adapter.rs',S+'instruments/gauge/gauge_adapter.rs',S+'cockpit.rs'],
 [('filter','src/instruments/label_filter.rs LabelFilter::accepts'),('panel gate and fan-out','src/instruments/panel.rs handle_observation'),('adapter gate','src/instruments/instrument_adapter.rs')],
 [],['snapshots','recording handlers'])
p('C13','Names are unique where promised and reconfiguration hits its target only',
 'A named cockpit (in a processor) or named panel (in a cockpit) is only added if no component of that name is present, while unnamed ones are always added. Removing by name removes exactly the component of that name and nothing else, adding a panel to or removing it from a cockpit by name affects only that cockpit, requests naming something absent change nothing, and a name is free again after removal; the same rules hold for components added directly and through a transmitter.',
 ['histories'],'All sequences of adding and removing named and unnamed cockpits and panels, interleaved with observations.',
 'Depends on operation sequences; no test adds or removes components dynamically.',
 [S+'processor.rs',S+'cockpit.rs'],
 [('add/remove cockpit','src/processor.rs add_cockpit, remove_cockpit, process'),('add/remove panel','src/cockpit.rs add_panel, remove_panel')],
 [],['snapshots','get_cockpits, get_panels'])
p('C14','Counters and meters count every occurrence',
 'A counter, and the count of a meter, equal the sum of the multiplicities of all observations accepted (a value observation counts once whatever its value, a counted observation counts its count); the count of a value meter is the sum of the non-negative values observed. Counts never decrease and do not depend on timestamps, batching or time passing.',
 ['inputs','histories'],'All sequences of observation kinds, counts, values and times.',
 'Tests check a handful of updates at one instant.',
 [S+'instruments/counter.rs',S+'instruments/meter.rs',S+'instruments/other_instruments/value_meter.rs',S+'instruments/fundamentals/metrics_meter.rs'],
 [('counter','src/instruments/counter.rs update'),('meter mark','src/instruments/fundamentals/metrics_meter.rs mark')],
 [],['snapshot field values, Counter::get'])
p('C15','Meter rates are the exponentially weighted averages they claim to be',
 'The one, five and fifteen minute rates of a meter and of a value meter equal the exponentially weighted moving average (5 second ticks) of the events per second observed in each interval, whatever the pattern of updates, snapshots and idle time between ticks; rates under the configured lower cutoff show as zero, and exactly the enabled rates are shown (only the one minute rate by default).',
 ['histories','configurations'],'All arrival patterns over hours of time, all snapshot times, cutoffs and enabled sets.',
 'The EWMA is only tested tick by tick in isolation, the meters around it never over time.',
 [S+'instruments/meter.rs',S+'instruments/other_instruments/value_meter.rs',S+'instruments/fundamentals/metrics_meter.rs'],
 [('tick catch-up','src/instruments/fundamentals/metrics_meter.rs tick_inner'),('EWMA','src/instruments/fundamentals/metrics_meter.rs EWMA')],
 [('next_tick','when the next 5 s tick is due','src/instruments/fundamentals/metrics_meter.rs')],['snapshot rates under virtual time'])
p('C16','A gauge shows the last value set plus all changes since',
 'A gauge shows nothing until first set, then the last value that was set, adjusted by every change (increment, decrement, change-by) since; changes before the first value count from zero; durations are shown in its display unit and values that are no number leave it unchanged. Adapters restrict this exactly as configured: deltas-only ones ignore values that are not changes, increment/decrement ones add or subtract one per matching observation with the increment filter taking precedence.',
 ['inputs','histories','configurations'],'All sequences of values of all kinds, adapters and labels.',
 'Tests use short fixed sequences of one adapter.',
 [S+'instruments/gauge/mod.rs',S+'instruments/gauge/gauge_adapter.rs',S+'instruments/mod.rs'],
 [('next value','src/instruments/gauge/mod.rs next_value, set'),('adapter strategies','src/instruments/gauge/gauge_adapter.rs handle_observation')],
 [],['Gauge::get','snapshot fields'])
p('C17','Gauge tracking statistics describe exactly the tracked window',
 'With tracking over n seconds a gauge additionally shows peak, bottom, average, and the minimum and average of the per-second peaks and the maximum and average of the per-second bottoms, computed over exactly the updates made within the last n one-second intervals (empty intervals not counted), or the current value if there were none. Thus bottom <= average <= peak, all averages lie within their extremes, and older updates have no influence, however updates, idle gaps and snapshots are spread over time.',
 ['histories','configurations'],'All update patterns over time, window sizes and snapshot times.',
 'Tests cover two buckets with a manual clock and never idle gaps between updates.',
 [S+'instruments/gauge/tracking.rs',S+'instruments/gauge/mod.rs',S+'instruments/fundamentals/buckets.rs'],
 [('ring of seconds','src/instruments/fundamentals/buckets.rs tick'),('statistics','src/instruments/gauge/tracking.rs BucketsStats::from_buckets')],
 [],['snapshot fields under virtual time'])
p('C18','Histograms summarise exactly the values observed since their last reset',
 'The count of a histogram equals the number of numeric or duration values observed (other observations are ignored), min, max and all quantiles are values that were really observed, min and max are exact while at most 1028 values were observed since the last reset and none of them is older than a few hours (the reservoir forgets older values by design), quantiles are monotone, min <= mean <= max, and durations are in its display unit. With an inactivity limit, a histogram inactive for longer shows only its activity state, and (unless disabled) starts afresh with the next value.',
 ['inputs','histories','configurations'],'All value sequences, reservoir overflows, inactivity gaps and configurations.',
 'Two smoke tests that only check absence of panics.',
 [S+'instruments/histogram.rs'],
 [('update and reset','src/instruments/histogram.rs update'),('snapshot','src/instruments/histogram.rs put_values_into_snapshot')],
 [],['snapshot fields'])
p('C19','Time driven switches follow their documented timing',
 'A staircase timer is on from an observation until its switch-off time after the latest observation; an occurrence indicator is on exactly when something was observed within its duration; a non-occurrence indicator is on exactly when nothing was observed (or since creation) for its duration; inversion flips the shown state. If the inverted state is shown as well, both values of one snapshot are always complementary and the second has the configured name.',
 ['histories','configurations','schedules'],'All observation times, durations, inversion settings and snapshot times, with time passing anywhere during a snapshot.',
 'No test exercises any of these with time.',
 [S+'instruments/switches/staircase_timer.rs',S+'instruments/switches/occurrence_indicator.rs',S+'instruments/switches/non_occurrence_indicator.rs',S+'instruments/switches/mod.rs'],
 [('state()','src/instruments/switches/*.rs'),('naming','src/instruments/switches/mod.rs NameAlternation')],
 [],['state(), snapshot fields under virtual time'])
p('C20','Flags, displays and last-occurrence trackers show the latest observation',
 'A flag shows the last boolean observed (integers count as true when non-zero, other values are ignored) and its complement if configured; a data display shows the last text-free value observed (durations and changes are ignored) until its reset time has passed, then its reset value; a last-occurrence tracker shows the whole seconds since the latest observation, and before the first one nothing or zero as configured. None of them shows anything before there is something to show.',
 ['inputs','histories','configurations'],'All sequences of values and times.',
 'No test exercises any of these.',
 [S+'instruments/switches/flag.rs',S+'instruments/other_instruments/display.rs',S+'instruments/other_instruments/last_occurrence_tracker.rs'],
 [('update','flag.rs, display.rs, last_occurrence_tracker.rs update'),('expiry','src/instruments/other_instruments/display.rs value')],
 [],['snapshot fields under virtual time'])
p('C21','Inactivity limits hide exactly the inactive components',
 'A panel, cockpit, processor or group with an inactivity limit shows its contents while the last observation that reached it (or its creation) is within the limit and hides them once the limit is exceeded, and becomes visible again with the next observation reaching it. The `_active`/`_inactive` pair is shown, complementary and truthful, unless switched off, and switching it off does not change whether contents are hidden; without a limit everything is always shown.',
 ['histories','configurations'],'All observation and idle histories, all component kinds, limits and settings.',
 'No test sets an inactivity limit on any container.',
 [S+'instruments/panel.rs',S+'cockpit.rs',S+'processor.rs'],
 [('activity timestamp and limit check','put_values_into_snapshot / handle_observation / process in panel.rs, cockpit.rs, processor.rs')],
 [('last_activity_at / last_update','last time something was observed','panel.rs, cockpit.rs, processor.rs')],['snapshots under virtual time'])
p('C22','Snapshots contain every component exactly where it belongs',
 'A snapshot contains the values of every mounted component (processors, cockpits, panels, instruments, handlers, snapshooters, nested groups) exactly once, under a group for each named container and inlined for unnamed ones, in mount order within each kind. Titles and descriptions appear only in descriptive snapshots, for every component that has them, and never replace ones already present; a descriptive snapshot otherwise equals the plain one.',
 ['configurations','inputs'],'All trees of components, names, titles and descriptions.',
 'No test checks the structure of a composed snapshot.',
 [S+'driver.rs',S+'processor.rs',S+'cockpit.rs',S+'instruments/panel.rs',S+'util.rs',S+'instruments/polled.rs'],
 [('grouping','put_snapshot of each container'),('descriptives','src/util.rs put_default_descriptives, put_postfixed_descriptives')],
 [],['snapshots of random trees'])
p('C23','Taking snapshots never changes what is measured',
 'Taking snapshots - any number, at any time, descriptive or not - leaves all measured values as they would be without them; without new observations and without time passing, repeated snapshots are identical (apart from the driver\'s own metrics). Every snapshot calls each visible polled component and snapshooter exactly once and never delivers observations to it, and a snapshot passed in is only appended to.',
 ['histories','configurations'],'All interleavings of snapshots with updates and time.',
 'No test compares a measured history with and without snapshots.',
 [S+'instruments/meter.rs',S+'instruments/gauge/mod.rs',S+'instruments/histogram.rs',S+'processor.rs',S+'driver.rs',S+'instruments/polled.rs'],
 [('put_snapshot takes shared references; interior mutability in meters and tracked gauges','src/instruments/meter.rs, src/instruments/gauge/mod.rs')],
 [],['twin instances with and without snapshots','calls of PutsSnapshot'])
p('C24','JSON output is valid and faithful',
 'Every snapshot serialises to syntactically valid JSON that parses back to the same tree: keys and texts of any content, booleans, all 64-bit integers exactly, finite floats to the same value (to double precision as printed), non-finite ones as null. The integer-boolean option changes exactly booleans to 1 and 0, and pretty printing changes only whitespace.',
 ['inputs','configurations'],'All snapshot trees, keys, texts, numbers and configurations.',
 'No test serialises a snapshot.',
 [S+'snapshot.rs'],
 [('to_json','src/snapshot.rs to_json_value, to_json_internal')],
 [],['to_json, to_default_json through an independent strict parser'])
p('C25','Path lookup finds exactly what the snapshot contains',
 'Looking up a path (any separator, empty segments ignored) returns the first item of that name at every level, and not-found when a segment of a group does not exist or the path is empty; lookups on a found item continue from it. Reading an item as a duration yields exactly the stored number of nanoseconds, microseconds, milliseconds or seconds for non-negative integers and not-a-duration for everything else.',
 ['inputs'],'All snapshot trees, paths and separators.',
 'Tests cover one small tree.',
 [S+'snapshot.rs'],
 [('find','src/snapshot.rs find_with_separator, find_item'),('durations','src/snapshot.rs to_duration_*')],
 [],['return values against a model'])
p('C26','Conversions of observed values are exact or refused',
 'Observed values keep the value they were made from: integers, booleans, floats, changes, and durations to the precision of their unit. Conversions to i64, u64 and bool give the exact (for floats: rounded) value when it is representable and none otherwise, never a wrapped or clamped number; time unit conversion truncates exactly; convenience methods of the transmitter produce exactly the observation they describe, and measuring time from a future instant records nothing.',
 ['inputs'],'All values of all types including extremes and non-finite floats, and all unit pairs.',
 'Tests cover one value per unit pair.',
 [S+'observation.rs',S+'instruments/mod.rs',S+'lib.rs'],
 [('From impls and convert_to_*','src/observation.rs'),('duration_to_display_value','src/instruments/mod.rs'),('convenience methods','src/lib.rs TransmitsTelemetryData')],
 [],['return values; observations received by a handler'])
p('C27','No observation or configuration can crash or wrap the backend',
 'No observation (any count, value, duration, timestamp in the far past or future), accumulated history of extreme observations, or configured duration or capacity makes the processing thread panic or a shown number wrap around to the wrong sign or magnitude; numbers that cannot be represented saturate. All other instruments keep working.',
 ['inputs','histories','configurations'],'All extreme values for all instruments and settings, with and without overflow checks.',
 'Tests use small values only; overflow checks differ between debug and release.',
 [S+'instruments/counter.rs',S+'instruments/gauge/mod.rs',S+'instruments/gauge/tracking.rs',S+'instruments/fundamentals/metrics_meter.rs',S+'instruments/histogram.rs',S+'instruments/mod.rs',S+'observation.rs',S+'processor.rs',S+'instruments/switches/staircase_timer.rs'],
 [('saturating and checked arithmetic','all instruments')],
 [],['panic hook, snapshot values against a saturating model, overflow-checked build'])
p('C28','No data race or undefined behaviour on any workload',
 'Under concurrent transmission, mounting, reconfiguration, snapshots, pausing and dropping, the crate and what it does with its dependencies executes without undefined behaviour, data races, use after free, double free or leaked memory.',
 ['schedules','inputs'],'All thread interleavings of the public API.',
 'Tests run natively, without sanitizers, and hardly use threads.',
 [S+'lib.rs',S+'driver.rs',S+'processor.rs',S+'attached_mount.rs',S+'instruments/gauge/mod.rs',S+'instruments/fundamentals/metrics_meter.rs'],
 [('Send/Sync bounds and channels','src/lib.rs, src/processor.rs')],
 [],['Miri, ThreadSanitizer reports'])
p('C29','Attached mounts can be extended from anywhere at any time',
 'A processor or snapshooter put into an attached mount from any thread or clone, also through nested attached mounts and before the mount is first processed, becomes part of the mounted group exactly once and in the order put, starting with the next processing pass; it is processed and shown like one added directly. This keeps working while any handle exists and the group keeps processing after all handles are gone.',
 ['schedules','histories','configurations'],'All interleavings of attaching, processing, snapshotting and dropping handles.',
 'No test uses attached mounts.',
 [S+'attached_mount.rs',S+'processor.rs'],
 [('drain of the attach queue','src/attached_mount.rs InternalAttachedMount::process')],
 [('receiver','pending attachments','src/attached_mount.rs')],['snapshots, recording processors'])
p('C30','Memory stays bounded however long the system runs',
 'With a running driver the memory held by the system does not grow with the number of observations processed, snapshots taken or time passed, only with what is configured and what is currently queued; messages discarded or processed, removed components and answered requests are released.',
 ['histories'],'All histories of traffic, snapshots, reconfiguration and time.',
 'Needs long histories with an accounting allocator.',
 [S+'processor.rs',S+'driver.rs',S+'instruments/fundamentals/buckets.rs',S+'instruments/histogram.rs',S+'cockpit.rs'],
 [('fixed-size buckets and reservoirs','src/instruments/fundamentals/buckets.rs'),('messages consumed by value','src/processor.rs process')],
 [],['counting global allocator at quiescent points'])
p('C31','All ways of configuring a component are equivalent and take effect',
 'However an instrument, panel, cockpit, processor, mount, polled component or driver is configured - constructor, setter, builder method, short cut or public field, in any order, with later settings overriding earlier ones - it afterwards behaves and is shown exactly like one that was given the final settings at once; settings never mentioned have their documented defaults and changing one setting never changes another. What can be read back from it (names, titles, descriptions, limits, options) is what was set, and values read directly from an instrument are the ones its snapshot shows.',
 ['configurations','histories'],'All sequences of configuration steps in all spellings, for all components, followed by any traffic.',
 'Tests configure components in one way, mostly by constructor, and never compare the spellings or read settings back.',
 [S+'instruments/counter.rs',S+'instruments/gauge/mod.rs',S+'instruments/meter.rs',S+'instruments/histogram.rs',S+'instruments/panel.rs',S+'instruments/polled.rs',S+'instruments/switches/mod.rs',S+'instruments/switches/staircase_timer.rs',S+'instruments/other_instruments/display.rs',S+'instruments/other_instruments/value_meter.rs',S+'cockpit.rs',S+'processor.rs',S+'driver.rs'],
 [('setters, builder methods and getters','every component'),('DriverBuilder','src/driver.rs DriverBuilder')],
 [],['getters, direct readers, snapshots of twins'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
for x in P: assert len(x['title'])<=80, x['title']

#!/bin/bash
# C28: builds the harness with ThreadSanitizer, with AddressSanitizer + LeakSanitizer and for Miri, runs
# the workloads and judges nothing but the reports of the sanitizers.
here="$(cd "$(dirname "$0")/.." && pwd)"
tier="${VERIF_TIER:-quick}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$tier"
export VERIF_DIR="$here/target/san-scratch" # evidence of the borrowed suites is not evidence
unset RUSTUP_TOOLCHAIN RUSTFLAGS VERIF_CASE VERIF_ONLY VERIF_SCALE CARGO_TARGET_DIR
t0=$(date +%s)
triple=x86_64-unknown-linux-gnu
logs="$here/target/san-logs"
mkdir -p "$logs" "$VERIF_DIR" "$here/evidence" "$here/replays"
find "$logs" -type f -delete
find "$here/replays" -name 'C28-*' -delete
rm -f "$here/evidence/C28.json"
manifest="$here/harness/Cargo.toml"
build_native() { # sanitizer
    RUSTFLAGS="-Zsanitizer=$1" CARGO_TARGET_DIR="$here/target/$1" cargo +nightly build --offline --locked \
        -Zbuild-std --target $triple --features san --manifest-path "$manifest" >"$logs/build-$1.txt" 2>&1 || echo failed >"$logs/build-$1.failed"
}
export XDG_CACHE_HOME="$here/target/cache"
miri() { # log name, miri seed, args
    local log=$1 mseed=$2
    shift 2
    MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-seed=$mseed -Zmiri-env-forward=VERIF_SEED -Zmiri-env-forward=VERIF_TIER" \
        CARGO_TARGET_DIR="$here/target/miri" timeout "$miri_cap" \
        cargo +nightly miri run --offline --locked --features san,noclock --manifest-path "$manifest" -- "$@" >"$logs/$log.log" 2>&1
    echo $? >"$logs/$log.rc"
}
miri_cap=300
build_native thread & b1=$!
build_native address & b2=$!
# an unknown argument ends the program at once; this builds it
(miri miri-build 0 none) & b3=$!
wait $b1 $b2 $b3
grep -q "unknown property" "$logs/miri-build.log" || echo failed >"$logs/build-miri.failed"
rm -f "$logs/miri-build.rc"
for s in thread address miri; do
    if [ -e "$logs/build-$s.failed" ]; then
        tail -30 "$logs/build-$s.txt" "$logs/miri-build.log" 2>/dev/null >&2
        echo "HARNESS ERROR: the $s build failed" >&2
        exit 2
    fi
done
tsan="$here/target/thread/$triple/debug/mxcheck"
asan="$here/target/address/$triple/debug/mxcheck"
sym="$(command -v llvm-symbolizer)"
export TSAN_OPTIONS="exitcode=77 halt_on_error=1 external_symbolizer_path=$sym"
asan_base="exitcode=77 external_symbolizer_path=$sym"
native() { # log name, cap, binary, args
    local log=$1 cap=$2
    shift 2
    VERIF_WORKERS="${workers:-8}" timeout "$cap" "$@" >"$logs/$log.log" 2>&1
    echo $? >"$logs/$log.rc"
}
export ASAN_OPTIONS="$asan_base detect_leaks=1"
# LeakSanitizer needs to stop its own threads; where it may not, leaks are left to Miri
native probe 60 "$asan" san-run breadth
leaks=1
if grep -q "LeakSanitizer has encountered a fatal error" "$logs/probe.log"; then
    leaks=0
    export ASAN_OPTIONS="$asan_base detect_leaks=0"
    rm -f "$logs/probe.log" "$logs/probe.rc"
fi
if [ "$tier" = thorough ]; then
    seeds="1 2 3"; scale_a=1; scale_t=0.5; miri_n=20; miri_cap=600; cap=400
else
    seeds="1"; scale_a=0.05; scale_t=0.05; miri_n=2; cap=120
fi
jobs_file="$logs/jobs"
: >"$jobs_file"
suites="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C29"
threaded="C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C23 C29"
for k in $(seq 1 $miri_n); do
    for w in storm breadth shared; do echo "miri $w $k" >>"$jobs_file"; done
done
for s in $seeds; do
    for w in storm shared breadth; do
        echo "tsan $w $s" >>"$jobs_file"
        echo "asan $w $s" >>"$jobs_file"
    done
done
for i in $threaded; do echo "tsan $i 1" >>"$jobs_file"; done
for i in $suites; do echo "asan $i 1" >>"$jobs_file"; done
job() {
    local seed=$((VERIF_SEED * 1000 + $3))
    case "$1 $2" in
    miri*) VERIF_SEED=$seed miri "miri-$2-$3" $seed san-run "$2" ;;
    tsan\ C*) VERIF_SEED=$seed VERIF_SCALE=$scale_t workers=4 native "tsan-$2-$3" $cap "$tsan" "$2" ;;
    asan\ C*) VERIF_SEED=$seed VERIF_SCALE=$scale_a workers=4 native "asan-$2-$3" $cap "$asan" "$2" ;;
    tsan*) VERIF_SEED=$seed workers=16 native "tsan-$2-$3" $cap "$tsan" san-run "$2" ;;
    asan*) VERIF_SEED=$seed workers=16 native "asan-$2-$3" $cap "$asan" san-run "$2" ;;
    esac
}
export -f job miri native
export here logs triple manifest tsan asan cap scale_a scale_t miri_cap
xargs -P 8 -d '\n' -I{} bash -c 'job {}' <"$jobs_file"
python3 "$here/tools/judge_sanitizers.py" "$here" "$logs" "$tier" "$VERIF_SEED" "$t0" "$leaks"

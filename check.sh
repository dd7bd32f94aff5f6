#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's current tree
# check.sh --build               build everything the checks need (setup)
# check.sh --replay FILE         re-run a stored failing case
# Exit 0: held. 1: violated (VIOLATION line). 2: does not build. 3: error of the machinery.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 3
tgt=$here/target
export PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
unset COMPUTERNAME USERDOMAIN USERDNSDOMAIN RUST_LOG
mkdir -p "$tgt/tmp" "$here/evidence" "$here/replays" || exit 3
export TMPDIR=$tgt/tmp

# cargo judges freshness by time stamps; always rebuild the code under test
# (stable's cargo and nightly's keep what they know in different places)
stale() {
    find "$1" -type d \( -path '*/.fingerprint/http-ntlm-*' -o -path '*/build/http-ntlm' \) -prune -exec rm -rf {} +
}

build() { # std | strict | rel | win | winrel | fuzz | i686 | tsan
    local dir=$tgt/$1 sub=. log=$tgt/build-$1.log flags="--cfg vp_hooks" args=() tc=
    case $1 in
        strict) args=(--features strict) ;;
        rel) args=(--release) ;; # no debug assertions, arithmetic wraps
        win) args=(--features win) ;; # with src/win.rs
        winrel) args=(--features win --release) ;;
        i686) # 32-bit; of the 32-bit C library only the run-time part is installed
            tc=+nightly
            args=(-Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu)
            mkdir -p "$dir/lib"
            for l in c m rt pthread dl util gcc_s; do
                ln -sf "$(printf '%s\n' /lib32/lib$l.so.* | head -1)" "$dir/lib/lib$l.so"
            done
            clang -m32 -c -O1 -fPIC -fno-stack-protector i686/start.c -o "$dir/start.o" || exit 3
            flags="$flags -Awarnings -Clinker=ld -Clinker-flavor=ld -Clink-self-contained=no"
            for l in -melf_i386 "-L$dir/lib" "$dir/start.o" -dynamic-linker /lib32/ld-linux.so.2 /lib32/ld-linux.so.2; do
                flags="$flags -Clink-arg=$l"
            done ;;
        tsan) # ThreadSanitizer, with the standard library too
            tc=+nightly
            args=(-Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu)
            flags="$flags -Awarnings -Zsanitizer=thread" ;;
        fuzz)
            sub=../fuzz
            args=(--target x86_64-unknown-linux-gnu)
            flags="$flags -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4"
            flags="$flags -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
            flags="$flags -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares" ;;
    esac
    mkdir -p "$dir"
    (
        flock 9
        stale "$dir"
        cd "$sub" && RUSTFLAGS=$flags cargo $tc build --locked --offline --target-dir "$dir" "${args[@]}"
    ) 9>"$dir.lock" >"$log" 2>&1 || {
        grep -E '^error' -A 12 "$log" | head -60
        echo "ERROR: the $1 build of /repo fails, see $log"
        exit 2
    }
}

# The harness for Miri: a standard library and the crates for a big-endian machine
miri() {
    local dir=$tgt/miri t=s390x-unknown-linux-gnu
    export VP_MIRI=$dir MIRI_SYSROOT=$dir/sys
    mkdir -p "$dir"
    (
        flock 9
        stale "$dir"
        cargo +nightly miri setup --target $t >"$dir/setup.log" 2>&1 || {
            tail -3 "$dir/setup.log"
            echo "ERROR: Miri cannot be set up"
            exit 3
        }
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" VP_REPO=/nonexistent RUSTFLAGS="--cfg vp_hooks -Awarnings" \
            cargo +nightly miri run -q --locked --offline --features mini --bin mini --target $t --target-dir "$dir" \
            -- run 1 0 1 0 C02 >"$dir/build.log" 2>&1 || {
            grep -E '^error' -A 12 "$dir/build.log" | head -60
            echo "ERROR: the Miri build of /repo fails, see $dir/build.log"
            exit 2
        }
    ) 9>"$dir.lock" || exit $?
}

vp() {
    local v=$1 kind=debug
    [[ $v = *rel ]] && kind=release
    shift
    [ $v = i686 ] && kind=i686-unknown-linux-gnu/debug
    if [ $v = tsan ]; then
        kind=x86_64-unknown-linux-gnu/debug
        local -x TSAN_OPTIONS="halt_on_error=1 exitcode=66 log_path=$tgt/tmp/tsan"
        rm -f "$tgt"/tmp/tsan.*
        set -- "$@" --variant tsan
    fi
    "$tgt/$v/$kind/vp" "$@"
}

# Coverage-guided search on all cores; leaves $tgt/ID.fuzz.json
fuzz() { # ID seconds
    local id=$1 secs=$2 n=8 i pids=() work=$tgt/fuzz-$1 fail=0
    rm -rf "$work"
    mkdir -p "$work/corpus"
    for ((i = 0; i < n; i++)); do
        (
            ulimit -v 12000000
            VP_PROP=$id "$tgt/fuzz/x86_64-unknown-linux-gnu/debug/vp_fuzz" -seed=$((VERIF_SEED * 100 + i + 1)) \
                -max_total_time="$secs" -max_len=6000 -len_control=20 -timeout=60 -reload=20 -print_final_stats=1 \
                -verbosity=0 -artifact_prefix="$work/art-$i-" "$work/corpus" >"$work/log-$i" 2>&1
        ) &
        pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p"; done
    for i in "$work"/art-*; do
        [ -e "$i" ] || continue
        vp std bytes "$id" "$i" --replays "$here/replays"
        case $? in
            0) echo "NOTE: $i does not fail again" ;;
            1) fail=1; break ;;
            *) exit 3 ;;
        esac
    done
    awk -v s="$secs" '/number_of_executed_units/ {e += $2} /new_units_added/ {a += $2} /^stat::peak/ {n++}
        END {printf "{\"engine\": \"libFuzzer\", \"seconds\": %d, \"processes\": %d, \"evaluations\": %d, \"inputs_with_new_coverage\": %d}\n", s, n, e, a}' \
        "$work"/log-* >"$tgt/$id.fuzz.json"
    if ! grep -q number_of_executed_units "$work"/log-* && [ $fail = 0 ]; then
        echo "ERROR: the fuzzer did not run"; tail -3 "$work/log-0"; exit 3
    fi
    rm -rf "$work/corpus"
    return $fail
}

case $1 in
    --build)
        build std; build strict; build rel; build win; build winrel; build i686; build tsan; miri
        exit 0 ;;
    --replay)
        v=$(sed -n 's/^variant //p' "$2" | head -1)
        [ "$v" = miri ] && miri
        case $v in strict | rel | win | winrel | i686 | tsan) ;; *) v=std ;; esac
        build $v
        vp $v replay "$2"
        code=$?
        [ $code = 66 ] && code=1 && echo "VIOLATION property=$(sed -n 's/^property //p' "$2") replay=$2"
        exit $code ;;
    C[0-9][0-9]) ;;
    *) sed -n 2,5p "$here/check.sh"; exit 3 ;;
esac

id=$1
tier=${2:-${VERIF_TIER:-quick}}
VERIF_SEED=${VERIF_SEED:-1}
common=(--tier "$tier" --seed "$VERIF_SEED" --replays "$here/replays")
merge=()
rm -f "$tgt/$id.strict.json" "$tgt/$id.rel.json" "$tgt/$id.fuzz.json"

finish() { # code variant: never report an error as anything else
    [ "$1" = 0 ] && return
    exit "$1"
}

if [ "$id" = C32 ]; then
    build std
    build i686
    miri
    VP_I686=$tgt/i686/i686-unknown-linux-gnu/debug/vp vp std cross "$id" "${common[@]}" --evidence "$here/evidence/$id.json"
    exit $?
fi

# Built with the strict feature: the property about it, and those whose code it touches
case $id in
    C23) scale=1 ;;
    C01 | C02 | C03 | C05 | C06 | C18) scale=0.1 ;;
    C27) scale=0 ;;
    *) scale=0; [ "$tier" = thorough ] && scale=0.1 ;;
esac
if [ "$scale" != 0 ]; then
    build strict
    vp strict run "$id" "${common[@]}" --scale $scale --evidence "$tgt/$id.strict.json" | grep -v '^KNOWN-FINDING'
    finish "${PIPESTATUS[0]}"
    merge+=(--merge "$tgt/$id.strict.json")
fi
main=std rel=rel
if [ "$id" = C27 ]; then main=win rel=winrel; fi
# With ThreadSanitizer first: it says what is wrong where other builds only crash
if [ "$id" = C33 ]; then
    build tsan
    if vp tsan list >"$tgt/tmp/list" 2>&1; then
        vp tsan run "$id" --seed $((VERIF_SEED + 700)) "${common[@]}" --scale 0.1 --evidence "$tgt/$id.tsan.json"
        finish $?
        merge+=(--merge "$tgt/$id.tsan.json")
    else
        echo "NOTE: ThreadSanitizer does not start here: $(tail -1 "$tgt/tmp/list")"
    fi
fi
# Built as users build it
build $rel
vp $rel run "$id" --seed $((VERIF_SEED + 500)) "${common[@]}" --scale 0.1 --evidence "$tgt/$id.rel.json" | grep -v '^KNOWN-FINDING'
finish "${PIPESTATUS[0]}"
merge+=(--merge "$tgt/$id.rel.json")
if [ "$tier" = thorough ]; then
    case $id in
        C13 | C14 | C22 | C27 | C29 | C33 | C35 | C36) ;; # output capture, statistics over a run, cheap arithmetic, threads, system calls: no gain from coverage
        *)
            build fuzz
            build std
            fuzz "$id" "${VP_FUZZ_SECONDS:-150}" || exit 1
            merge+=(--merge "$tgt/$id.fuzz.json") ;;
    esac
fi
build $main
if [ "$id" = C33 ] && [ "$tier" = thorough ]; then
    miri
    vp std threads "$id" "${common[@]}" --evidence "$tgt/$id.miri.json"
    finish $?
    merge+=(--merge "$tgt/$id.miri.json")
fi
vp $main run "$id" "${common[@]}" "${merge[@]}" --evidence "$here/evidence/$id.json"
finish $?
exit 0

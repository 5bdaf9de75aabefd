#!/bin/bash
# usage: run.sh <property>          decide one property of /repo's working tree
#        run.sh --build             build everything (setup_cmd)
#        run.sh --replay <file>     run one recorded failing case again
# exit 0 held, 1 violated (VIOLATION line on stdout), 2 no answer (does not build, resources, ...)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
mkdir -p build evidence replays || exit 2

# cargo decides by time stamps what to build again; a tree that was put in place by a copy can
# carry older ones. The text of the sources decides here.
want=$( { find /repo/src /repo/utils -name target -prune -o -type f -print0 2>/dev/null; printf '%s\0' /repo/Cargo.toml; } \
        | sort -z | xargs -0 sha256sum 2>/dev/null | sha256sum )

toolchain() { # crate
    case $1 in
        checks-asan)
            export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
            export RUSTFLAGS="-Zsanitizer=address -Ctarget-cpu=x86-64" ;;
        checks-bench) # the command line tool with its feature `benchmarking`
            export CARGO_TARGET_DIR=$PWD/build/bench ;;
    esac
}
flags() { # crate; with --target, build scripts are not instrumented
    case $1 in
        checks-asan) echo --target x86_64-unknown-linux-gnu ;;
    esac
}
binary() { # crate
    case $1 in
        checks-asan) echo build/x86_64-unknown-linux-gnu/release/checks-asan ;;
        *) echo "build/release/$1" ;;
    esac
}

build() { # crate
    local stamp=build/.sources-$1
    toolchain "$1"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$want" ]; then
        rm -f "$stamp"
        (cd "$1" && cargo clean --offline --release $(flags "$1") -p walky && cargo clean --offline --release $(flags "$1") -p "$1") >/dev/null 2>&1
    fi
    if ! (cd "$1" && cargo build --release --offline $(flags "$1")) >"build/log-$1" 2>&1; then
        tail -n 60 "build/log-$1" >&2
        echo "run.sh: /repo does not build with $1 (see above)" >&2
        return 2
    fi
    echo "$want" >"$stamp"
}

# the program that Miri interprets in P02 and P21; the first time, its standard library as well
build_miri() {
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu XDG_CACHE_HOME=$PWD/build/cache
    unset MIRI_SYSROOT MIRIFLAGS
    local stamp=build/.sources-checks-miri
    if [ "$(cat "$stamp" 2>/dev/null)" != "$want" ]; then
        rm -f "$stamp"
        (cd checks-miri && for p in walky checks-miri; do
            CARGO_TARGET_DIR=$PWD/../build/miri cargo clean --offline --target x86_64-unknown-linux-gnu -p $p; done) >/dev/null 2>&1
    fi
    if ! (cd checks-miri && cargo miri run --offline) >build/log-checks-miri 2>&1; then
        tail -n 60 build/log-checks-miri >&2
        echo "run.sh: /repo does not build for Miri (see above)" >&2
        return 2
    fi
    echo "$want" >"$stamp"
}

crate_of() { # property
    case $1 in
        P03|P04|P05) echo checks-mpi ;;
        P21) echo checks-asan ;;
        *) echo checks ;;
    esac
}

# where Miri does not work, those sub-checks are inconclusive (and say so), and the others decide
interpreted() { # property
    case $1 in
        P02|P21)
            [ -n "$VERIF_NO_MIRI" ] && return
            export VERIF_NIGHTLY=$(rustc +nightly-x86_64-unknown-linux-gnu --print sysroot)
            (build_miri) || export VERIF_NO_MIRI=1 ;;
    esac
}

case $1 in
    --build)
        for c in checks checks-bench checks-mpi checks-asan; do (build $c) || exit 2; done
        (build_miri)
        exit 0 ;;
    --replay)
        p=$(sed -n 's/^ *"property": *"\(P[0-9]*\)".*/\1/p' "$2" | head -n 1)
        c=$(crate_of "$p")
        interpreted "$p"
        [ "$p" != P18 ] || (build checks-bench) || exit 2
        build "$c" || exit 2
        exec "$(binary "$c")" replay "$2" ;;
    P*)
        c=$(crate_of "$1")
        interpreted "$1"
        [ "$1" != P18 ] || (build checks-bench) || exit 2
        build "$c" || exit 2
        exec "$(binary "$c")" check "$1" ;;
    *) echo "usage: run.sh <property> | --build | --replay <file>" >&2; exit 2 ;;
esac

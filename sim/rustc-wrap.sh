#!/bin/bash
# RUSTC_WRAPPER: adds basic-block callbacks (the simulator's preemption points and step counter) to the
# code under test and to the lock-free/locking crates it runs on.
rc="$1"; shift
case " $* " in
 *" --crate-name plonky "*|*" --crate-name plookup "*|*" --crate-name rayon "*|*" --crate-name rayon_core "*|*" --crate-name crossbeam_deque "*|*" --crate-name crossbeam_epoch "*|*" --crate-name crossbeam_utils "*|*" --crate-name crossbeam_channel "*|*" --crate-name once_cell "*)
   exec "$rc" "$@" -Cpasses=sancov -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
 *) exec "$rc" "$@" ;;
esac

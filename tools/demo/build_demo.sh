# Sourced by demo.sh: build_demo PROGRAM.cc [extra library sources...]; leaves $work/demo.
# Run with the current directory at the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$work"' EXIT
core="constraint.cc constraints/extensional_utils.cc constraints/in/in.cc constraints/innards/reified_state.cc
constraints/innards/tabulation.cc constraints/innards/triggers.cc constraints/linear/justify.cc constraints/linear/linear_equality.cc
constraints/linear/linear_inequality.cc constraints/linear/linear_less_than_equal.cc constraints/linear/propagate.cc
constraints/linear/utils.cc constraints/nogoods/nogoods.cc current_state.cc exception.cc innards/integer_overflow.cc
innards/literal.cc innards/power.cc innards/proofs/bits_encoding.cc innards/proofs/emit_inequality_to.cc
innards/proofs/names_and_ids_tracker.cc innards/proofs/pol_builder.cc innards/proofs/proof_error.cc innards/proofs/proof_logger.cc
innards/proofs/proof_model.cc innards/proofs/proof_only_variables.cc innards/proofs/scp_writer.cc innards/proofs/simplify_literal.cc
innards/propagators.cc innards/reason.cc innards/s_expr.cc innards/state.cc innards/variable_id_utils.cc problem.cc proof.cc
restarts.cc search_heuristics.cc solve.cc stats.cc variable_id.cc variable_condition.cc presolver.cc variable_weighting.cc"
cxx=$(command -v clang++-20 || command -v g++-14 || command -v g++)
flags="-std=c++23 -O0 -w -I$here/shim -I."
compile() { # sources relative to gcs/
    printf '%s\n' "$@" | sort -u | xargs -P 8 -I{} sh -c 'o='"$work"'/$(echo {} | tr / _).o; test -f $o || '"$cxx $flags"' -c gcs/{} -o $o || { sleep 2; '"$cxx $flags"' -c gcs/{} -o $o; }' || return 1
}
build_demo() {
    prog=$1; shift
    $cxx $flags -c "$here/$prog" -o "$work/demo_main.o" || { echo "the demonstration does not compile"; exit 99; }
    compile $core "$@" || { echo "the library does not compile"; exit 99; }
    if ! $cxx "$work"/*.o -o "$work/demo" -lfmt -lstdc++exp -lpthread 2> "$work/link.log"; then cat "$work/link.log" | grep undefined >&2
        # something has moved: take every source of the library
        compile $(sed -n '/add_library(glasgow_constraint_solver/,/)/p' gcs/CMakeLists.txt | grep -o '[a-z0-9_/]*\.cc') || exit 99
        $cxx "$work"/*.o -o "$work/demo" -lfmt -lstdc++exp -lpthread || exit 99
    fi
}

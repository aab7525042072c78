#include "builder.hh"
#include <gcs/constraints/all_different.hh>
#include <gcs/constraints/all_different/all_different_except.hh>
#include <gcs/constraints/all_different/symmetric_all_different.hh>
#include <gcs/constraints/among.hh>
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/bin_packing.hh>
#include <gcs/constraints/circuit.hh>
#include <gcs/constraints/count.hh>
#include <gcs/constraints/global_cardinality.hh>
#include <gcs/constraints/in.hh>
#include <gcs/constraints/inverse.hh>
#include <gcs/constraints/n_value.hh>
#include <gcs/constraints/seq_precede_chain.hh>
#include <gcs/constraints/sort.hh>
#include <gcs/constraints/value_precede.hh>
using namespace gcs;
using namespace sim;

bool sim::post_counting(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    int v = k.opt >> 8, opt = k.opt & 255;
    auto T = [&](size_t i, size_t j) { return b.term(k.t.at(i).at(j)); };
    auto L = [&](size_t i) { return b.terms(k.t.at(i)); };
    if (n == "alldiff") {
        AllDifferent c{L(0)};
        if (opt == 1)
            c.with_consistency(consistency::GAC{});
        else if (opt == 2)
            c.with_consistency(consistency::VC{});
        b.post(c, k);
    }
    else if (n == "alldiff_except") {
        if (opt == 1)
            b.post(AllDifferentExceptZero{L(0)}, k);
        else
            b.post(AllDifferentExcept{L(0), b.ints(k.n[0])}, k);
    }
    else if (n == "symalldiff")
        b.post(SymmetricAllDifferent{L(0), Integer{k.n[0][0]}}, k);
    else if (n == "among")
        b.post(Among{L(0), b.ints(k.n[0]), T(1, 0)}, k);
    else if (n == "atmostone") {
        if (opt)
            b.post(AtMostOneSmartTable{L(0), T(1, 0)}, k);
        else
            b.post(AtMostOne{L(0), T(1, 0)}, k);
    }
    else if (n == "binpacking") {
        auto finish = [&](BinPacking c) {
            if (v & 1)
                c.with_consistency(consistency::BC{});
            if (v & 2)
                c.with_proof_strategy(proof_strategy::Upfront{});
            b.post(c, k);
        };
        if (opt & 1)
            finish(BinPacking{L(0), b.ints(k.n[0]), L(1)});
        else
            finish(BinPacking{L(0), b.ints(k.n[0]), b.ints(k.n[1])});
    }
    else if (n == "circuit") {
        Circuit c{L(0)};
        if (v & 1) {
            c.with_algorithm(circuit::Prevent{});
            if (v & 2)
                c.with_gac_all_different();
        }
        else {
            if (v & 2)
                c.with_gac_all_different();
            c.with_algorithm(circuit::SCC{});
            c.with_prune_root(bool(v & 4)).with_prune_skip(bool(v & 8)).with_fix_req(bool(v & 16)).with_prune_within(bool(v & 32));
            c.with_prove_using_dominance(bool(v & 64)).with_prove_am1_by_contradiction(bool(v & 128)).with_short_reasons(bool(v & 256));
        }
        b.post(c, k);
    }
    else if (n == "count")
        b.post(Count{L(0), T(1, 0), T(1, 1)}, k);
    else if (n == "gcc") {
        GlobalCardinality c{L(0), b.ints(k.n[0]), L(1)};
        if (opt & 1)
            c.with_consistency(consistency::GAC{});
        else
            c.with_consistency(consistency::BC{});
        if (opt & 2)
            c.with_closed();
        b.post(c, k);
    }
    else if (n == "in") {
        if (k.n[0].empty())
            b.post(In{T(0, 0), L(1)}, k);
        else if (k.t[1].empty())
            b.post(In{T(0, 0), b.ints(k.n[0])}, k);
        else
            b.post(In{T(0, 0), L(1), b.ints(k.n[0])}, k);
    }
    else if (n == "inverse")
        b.post(Inverse{L(0), L(1), Integer{k.n[0][0]}, Integer{k.n[0][1]}}, k);
    else if (n == "nvalue")
        b.post(NValue{T(1, 0), L(0)}, k);
    else if (n == "seqprecede")
        b.post(SeqPrecedeChain{L(0)}, k);
    else if (n == "valueprecede") {
        if (k.n[0].size() == 2 && (v & 1))
            b.post(ValuePrecede{Integer{k.n[0][0]}, Integer{k.n[0][1]}, L(0)}, k);
        else
            b.post(ValuePrecede{b.ints(k.n[0]), L(0)}, k);
    }
    else if (n == "sort")
        b.post(Sort{L(0), L(1)}, k);
    else if (n == "argsort")
        b.post(ArgSort{L(0), L(1), Integer{k.n[0][0]}}, k);
    else
        return false;
    return true;
}

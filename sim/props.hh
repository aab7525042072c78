#pragma once
#include "run.hh"

namespace sim
{
    struct Skip
    {
        std::string why;
    };

    struct Prop
    {
        std::string id;
        Case (*make)(Rng &);
        void (*check)(const Case &); // throws Violation, or Skip if the case turns out not to be usable
    };
    const std::vector<Prop> & props();
    const Prop & prop(const std::string &);

    // Shared pieces.
    std::vector<Assignment> truth(const Case &);
    std::string show(const Assignment &);
    void expect_all(const Case &, const Outcome &, const std::vector<Assignment> & truth, const std::string & where);
    void expect_optimum(const Case &, const Outcome &, const std::vector<Assignment> & truth, const std::string & where);
    void expect_full(const Case &, const Outcome &, const std::vector<Assignment> & truth, const std::string & where);
    void expect_partial(const Case &, const Outcome &, const std::vector<Assignment> & truth, const std::string & where);
    void note_shape(const Case &);

    gcs::ProofOptions proof_options(const Case &, const std::string & name = "sim:/p");
    Case make_proof_case(Rng &);
    void too_wide(const Case &);
    void skip_unsupported(const Case &, const Outcome &);

    extern u64 case_hash; // everything that happened while checking the current case
    void mix_case_hash(const Outcome &);

    Case make_c01(Rng &), make_c02(Rng &), make_c03(Rng &), make_c04(Rng &), make_c16(Rng &), make_c17(Rng &), make_c23(Rng &);
    Case make_c05(Rng &), make_c06(Rng &);
    void check_c05(const Case &), check_c06(const Case &);
    Case make_c07(Rng &), make_c09(Rng &), make_c12(Rng &);
    void check_c07(const Case &), check_c09(const Case &), check_c12(const Case &);
    Case make_c11(Rng &), make_c13(Rng &), make_c14(Rng &), make_c20(Rng &), make_c21(Rng &), make_c22(Rng &);
    void check_c21(const Case &);
    void check_c22(const Case &);
    void check_c13(const Case &);
    void check_c14(const Case &);
    void check_c20(const Case &);
    bool proofs_without_known_trouble(const Case &); // whether what C05 checks proofs of includes this
    void check_c11(const Case &);
    Case make_c08(Rng &), make_c15(Rng &);
    void check_c08(const Case &), check_c15(const Case &);
    void check_c01(const Case &), check_c02(const Case &), check_c03(const Case &), check_c04(const Case &), check_c16(const Case &),
        check_c17(const Case &), check_c23(const Case &);
}

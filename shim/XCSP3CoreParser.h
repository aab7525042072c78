// What the XCSP3 front end needs of the XCSP3 core parser, without XML: parse()
// hands the callbacks over to whoever has set gsim_xcsp_instance, which calls them
// as the parser would for the instance in question.
#pragma once
#include <climits>
#include <functional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#define STAR INT_MAX

namespace XCSP3Core
{
    enum class OrderType
    {
        LE,
        LT,
        GE,
        GT,
        IN,
        EQ,
        NE,
        NOTIN
    };
    enum class OperandType
    {
        INTEGER,
        INTERVAL,
        VARIABLE,
        SET
    };
    enum class RankType
    {
        ANY,
        FIRST,
        LAST
    };
    enum class ExpressionObjective
    {
        EXPRESSION_O,
        SUM_O,
        PRODUCT_O,
        MINIMUM_O,
        MAXIMUM_O,
        NVALUES_O,
        LEX_O
    };
    enum class ExpressionType
    {
        OUNDEF,
        OVAR,
        ODECIMAL,
        ONEG,
        OABS,
        OSQR,
        OADD,
        OSUB,
        OMUL,
        ODIV,
        OMOD,
        OPOW,
        ODIST,
        OMIN,
        OMAX,
        OLT,
        OLE,
        OGE,
        OGT,
        ONE,
        OEQ,
        OSET,
        OIN,
        ONOTIN,
        ONOT,
        OAND,
        OOR,
        OXOR,
        OIFF,
        OIMP,
        OIF
    };
    inline std::string operatorToString(ExpressionType t)
    {
        return "operator " + std::to_string((int)t);
    }

    struct XVariable
    {
        std::string id;
    };
    struct XInterval
    {
        int min, max;
    };
    struct XTransition
    {
        std::string from;
        int val;
        std::string to;
    };
    struct XCondition
    {
        OrderType op = OrderType::EQ;
        OperandType operandType = OperandType::INTEGER;
        int val = 0;
        std::string var;
        int min = 0, max = 0;
        std::set<int> set;
    };
    struct Node
    {
        ExpressionType type = ExpressionType::OUNDEF;
        std::vector<Node *> parameters;
        virtual ~Node() = default;
    };
    struct NodeConstant : Node
    {
        int val = 0;
    };
    struct NodeVariable : Node
    {
        std::string var;
    };
    struct Tree
    {
        Node * root = nullptr;
    };

    class XCSP3CoreCallbacks
    {
        using V = std::vector<XVariable *>;
        using VV = std::vector<V>;
        using I = std::vector<int>;
        using II = std::vector<I>;
        using S = std::string;
        [[noreturn]] static void no()
        {
            throw std::runtime_error{"this constraint is not yet supported"};
        }

    public:
        bool intensionUsingString = true, recognizeSpecialIntensionCases = true, recognizeSpecialCountCases = true;
        virtual ~XCSP3CoreCallbacks() = default;

        virtual void buildVariableInteger(S, int, int) = 0;
        virtual void buildVariableInteger(S, I &) = 0;
        virtual void buildConstraintExtension(S, V, II &, bool, bool) { no(); }
        virtual void buildConstraintExtension(S, XVariable *, I &, bool, bool) { no(); }
        virtual void buildConstraintExtensionAs(S, V, bool, bool) { no(); }
        virtual void buildConstraintIntension(S, Tree *) { no(); }
        virtual void buildConstraintRegular(S, V &, S, std::vector<S> &, std::vector<XTransition> &) { no(); }
        virtual void buildConstraintMDD(S, V &, std::vector<XTransition> &) { no(); }
        virtual void buildConstraintAlldifferent(S, V &) { no(); }
        virtual void buildConstraintAlldifferentExcept(S, V &, I &) { no(); }
        virtual void buildConstraintAlldifferentMatrix(S, VV &) { no(); }
        virtual void buildConstraintAllEqual(S, V &) { no(); }
        virtual void buildConstraintOrdered(S, V &, OrderType) { no(); }
        virtual void buildConstraintOrdered(S, V &, I &, OrderType) { no(); }
        virtual void buildConstraintLex(S, VV &, OrderType) { no(); }
        virtual void buildConstraintLexMatrix(S, VV &, OrderType) { no(); }
        virtual void buildConstraintPrecedence(S, V &, bool) { no(); }
        virtual void buildConstraintPrecedence(S, V &, I, bool) { no(); }
        virtual void buildConstraintSum(S, V &, I &, XCondition &) { no(); }
        virtual void buildConstraintSum(S, V &, XCondition &) { no(); }
        virtual void buildConstraintSum(S, V &, V &, XCondition &) { no(); }
        virtual void buildConstraintCount(S, V &, I &, XCondition &) { no(); }
        virtual void buildConstraintAmong(S, V &, I &, int) { no(); }
        virtual void buildConstraintAtMost(S, V &, int, int) { no(); }
        virtual void buildConstraintAtLeast(S, V &, int, int) { no(); }
        virtual void buildConstraintExactlyK(S, V &, int, int) { no(); }
        virtual void buildConstraintExactlyVariable(S, V &, int, XVariable *) { no(); }
        virtual void buildConstraintNValues(S, V &, XCondition &) { no(); }
        virtual void buildConstraintCardinality(S, V &, I, I &, bool) { no(); }
        virtual void buildConstraintCardinality(S, V &, I, V &, bool) { no(); }
        virtual void buildConstraintCardinality(S, V &, I, std::vector<XInterval> &, bool) { no(); }
        virtual void buildConstraintMinimum(S, V &, XCondition &) { no(); }
        virtual void buildConstraintMaximum(S, V &, XCondition &) { no(); }
        virtual void buildConstraintElement(S, V &, int, XVariable *, RankType, int) { no(); }
        virtual void buildConstraintElement(S, V &, int, XVariable *, RankType, XVariable *) { no(); }
        virtual void buildConstraintElement(S, I &, int, XVariable *, RankType, XVariable *) { no(); }
        virtual void buildConstraintElement(S, VV &, int, XVariable *, int, XVariable *, XVariable *) { no(); }
        virtual void buildConstraintElement(S, VV &, int, XVariable *, int, XVariable *, int) { no(); }
        virtual void buildConstraintElement(S, II &, int, XVariable *, int, XVariable *, XVariable *) { no(); }
        virtual void buildConstraintChannel(S, V &, int) { no(); }
        virtual void buildConstraintChannel(S, V &, int, V &, int) { no(); }
        virtual void buildConstraintChannel(S, V &, int, XVariable *) { no(); }
        virtual void buildConstraintNoOverlap(S, V &, I &, bool) { no(); }
        virtual void buildConstraintNoOverlap(S, V &, V &, bool) { no(); }
        virtual void buildConstraintNoOverlap(S, VV &, II &, bool) { no(); }
        virtual void buildConstraintNoOverlap(S, VV &, VV &, bool) { no(); }
        virtual void buildConstraintCumulative(S, V &, I &, I &, XCondition &) { no(); }
        virtual void buildConstraintCumulative(S, V &, I &, V &, XCondition &) { no(); }
        virtual void buildConstraintCumulative(S, V &, V &, I &, XCondition &) { no(); }
        virtual void buildConstraintCumulative(S, V &, V &, V &, XCondition &) { no(); }
        virtual void buildConstraintBinPacking(S, V &, I &, XCondition &) { no(); }
        virtual void buildConstraintBinPacking(S, V &, I &, I &, bool) { no(); }
        virtual void buildConstraintBinPacking(S, V &, I &, V &, bool) { no(); }
        virtual void buildConstraintBinPacking(S, V &, I &, std::vector<XCondition> &, int) { no(); }
        virtual void buildConstraintCircuit(S, V &, int) { no(); }
        virtual void buildConstraintCircuit(S, V &, int, int) { no(); }
        virtual void buildConstraintCircuit(S, V &, int, XVariable *) { no(); }
        virtual void buildConstraintInstantiation(S, V &, I &) { no(); }
        virtual void buildConstraintKnapsack(S, V &, I &, I &, XCondition, XCondition &) { no(); }
        virtual void buildObjectiveMinimize(ExpressionObjective, V &, I &) { no(); }
        virtual void buildObjectiveMaximize(ExpressionObjective, V &, I &) { no(); }
        virtual void buildObjectiveMinimize(ExpressionObjective, V &) { no(); }
        virtual void buildObjectiveMaximize(ExpressionObjective, V &) { no(); }
        virtual void buildObjectiveMinimizeVariable(XVariable *) { no(); }
        virtual void buildObjectiveMaximizeVariable(XVariable *) { no(); }
    };

    inline std::function<void(XCSP3CoreCallbacks &)> gsim_xcsp_instance;

    class XCSP3CoreParser
    {
        XCSP3CoreCallbacks * _callbacks;

    public:
        explicit XCSP3CoreParser(XCSP3CoreCallbacks * c) : _callbacks(c)
        {
        }
        int parse(const char *)
        {
            gsim_xcsp_instance(*_callbacks);
            return 0;
        }
    };
}

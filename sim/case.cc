#include "case.hh"
#include <sstream>
#include <stdexcept>
using namespace std;
using namespace sim;

vector<i64> VarDecl::domain() const
{
    if (! is_range)
        return values;
    vector<i64> r;
    for (i64 v = lo; v <= hi; ++v)
        r.push_back(v);
    return r;
}

namespace
{
    string term_text(const Term & t)
    {
        if (t.var < 0)
            return "c" + to_string(t.add);
        string s = (t.neg ? "n" : "v") + to_string(t.var);
        if (t.add)
            s += ":" + to_string(t.add);
        return s;
    }

    Term parse_term(const string & s)
    {
        Term t;
        if (s.at(0) == 'c') {
            t.add = stoll(s.substr(1));
            return t;
        }
        t.neg = s.at(0) == 'n';
        auto colon = s.find(':');
        t.var = stoi(s.substr(1, colon == string::npos ? string::npos : colon - 1));
        if (colon != string::npos)
            t.add = stoll(s.substr(colon + 1));
        return t;
    }

    string hex(const string & s)
    {
        static const char * d = "0123456789abcdef";
        string r = "x";
        for (unsigned char c : s) {
            r += d[c >> 4];
            r += d[c & 15];
        }
        return r;
    }

    string unhex(const string & s)
    {
        string r;
        for (size_t i = 1; i + 1 < s.size(); i += 2)
            r += (char)stoi(s.substr(i, 2), nullptr, 16);
        return r;
    }
}

string sim::to_text(const Case & c)
{
    ostringstream o;
    o << "gsim 1\nprop " << c.prop << "\nseed " << c.seed << "\n";
    for (auto & v : c.vars) {
        o << "var " << (v.name.empty() ? "x" : hex(v.name));
        if (v.is_range)
            o << " range " << v.lo << " " << v.hi;
        else {
            o << " set";
            for (auto x : v.values)
                o << " " << x;
        }
        o << "\n";
    }
    for (auto & k : c.cons) {
        o << "con " << k.kind << " " << k.opt << " " << k.reif << " " << hex(k.s) << " " << hex(k.name);
        for (auto & ts : k.t) {
            o << " T";
            for (auto & t : ts)
                o << " " << term_text(t);
        }
        for (auto & ns : k.n) {
            o << " N";
            for (auto & n : ns)
                o << " " << n;
        }
        for (auto & q : k.c)
            o << " C " << term_text(q.t) << " " << q.op << " " << q.v << " " << q.v2;
        o << "\n";
    }
    if (c.objective)
        o << "obj " << c.objective << " " << term_text(c.obj) << "\n";
    for (auto & q : c.pre) {
        o << "pre " << q.kind;
        for (auto n : q.n)
            o << " " << n;
        o << "\n";
    }
    for (auto & [k, v] : c.p)
        o << "p " << k << " " << v << "\n";
    for (auto & d : c.dec) {
        o << "dec";
        for (auto n : d)
            o << " " << n;
        o << "\n";
    }
    for (auto & d : c.ops) {
        o << "op";
        for (auto n : d)
            o << " " << n;
        o << "\n";
    }
    if (! c.text.empty())
        o << "text " << hex(c.text) << "\n";
    o << "end\n";
    return o.str();
}

Case sim::from_text(const string & text)
{
    Case c;
    istringstream in(text);
    string line;
    bool ended = false;
    while (getline(in, line)) {
        istringstream l(line);
        string w;
        if (! (l >> w) || w[0] == '#')
            continue;
        if (w == "gsim")
            continue;
        else if (w == "prop")
            l >> c.prop;
        else if (w == "seed")
            l >> c.seed;
        else if (w == "var") {
            VarDecl v;
            string n, k;
            l >> n >> k;
            v.name = n == "x" ? "" : unhex(n);
            v.is_range = k == "range";
            if (v.is_range)
                l >> v.lo >> v.hi;
            else {
                i64 x;
                while (l >> x)
                    v.values.push_back(x);
            }
            c.vars.push_back(v);
        }
        else if (w == "con") {
            Con k;
            string s, n;
            l >> k.kind >> k.opt >> k.reif >> s >> n;
            k.s = unhex(s);
            k.name = unhex(n);
            char mode = 0;
            string tok;
            while (l >> tok) {
                if (tok == "T") {
                    mode = 'T';
                    k.t.emplace_back();
                }
                else if (tok == "N") {
                    mode = 'N';
                    k.n.emplace_back();
                }
                else if (tok == "C") {
                    Cond q;
                    string ts;
                    l >> ts >> q.op >> q.v >> q.v2;
                    q.t = parse_term(ts);
                    k.c.push_back(q);
                    mode = 0;
                }
                else if (mode == 'T')
                    k.t.back().push_back(parse_term(tok));
                else if (mode == 'N')
                    k.n.back().push_back(stoll(tok));
                else
                    throw runtime_error("bad con line: " + line);
            }
            c.cons.push_back(k);
        }
        else if (w == "obj") {
            string t;
            l >> c.objective >> t;
            c.obj = parse_term(t);
        }
        else if (w == "pre") {
            Pre q;
            l >> q.kind;
            i64 x;
            while (l >> x)
                q.n.push_back(x);
            c.pre.push_back(q);
        }
        else if (w == "p") {
            string k;
            i64 v;
            l >> k >> v;
            c.p[k] = v;
        }
        else if (w == "dec" || w == "op") {
            vector<i64> d;
            i64 x;
            while (l >> x)
                d.push_back(x);
            (w == "dec" ? c.dec : c.ops).push_back(d);
        }
        else if (w == "text") {
            string t;
            l >> t;
            c.text = unhex(t);
        }
        else if (w == "end")
            ended = true;
        else
            throw runtime_error("bad line: " + line);
    }
    if (! ended)
        throw runtime_error("truncated case");
    return c;
}

// P20: scope guards, against an interpreter of the same generated program.  Compiled as C++20 and as C++14.
#include "pbt.hpp"
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <pluto/scope.hpp>
#define NAME2(a, b) a##_##b
#define NAME1(a, b) NAME2(a, b)
#define PROP2(name, ...) PROP(name, __VA_ARGS__)
#define VPROP(name, ...) PROP2(NAME1(name, VARIANT), __VA_ARGS__)

namespace
{
    struct Node;
    enum ActionKind { PLAIN, THROW_INT, THROW_STD, NESTED_CAUGHT, NESTED, EMPTY, ADDS };
    struct Action
    {
        int id{ 0 };
        int kind{ PLAIN };
        std::shared_ptr<Node> nested{};
        std::shared_ptr<Action> added{};
    };
    enum SlotKind { EXIT, SUCCESS, FAIL, FINALIZER };
    enum StmtKind { CREATE, ADD, RUN_CAUGHT, RUN, IN_HANDLER, RETHROW_AFTER, THROW, RETURN, DESTROY };
    struct Stmt
    {
        int kind;
        int slot{ 0 };
        int slotKind{ 0 };
        bool atConstruction{ false };
        Action action{};
        std::shared_ptr<Node> node{};
    };
    struct Node { int id{ 0 }; std::vector<Stmt> body{}; };
    const int MAX_SLOTS = 5;

    struct Boom { int id; };
    // without uncaught_exceptions (before C++17) throwing inside a scope run while unwinding is undetectable
#if __cplusplus >= 201703L
    const bool THROWS_WHILE_UNWINDING = true;
    bool unwinding() { return std::uncaught_exceptions() > 0; }
#else
    const bool THROWS_WHILE_UNWINDING = false;
    bool unwinding() { return std::uncaught_exception(); }
#endif

    // ---- generator
    struct Gen
    {
        pbt::Case& c;
        int ids{ 0 };
        int nodes{ 0 };
        std::shared_ptr<Node> node(int depth)
        {
            auto n = std::make_shared<Node>();
            n->id = 1000 + ++nodes;
            int slots = 0;
            const std::size_t length = c.draw(depth ? 6 : 9);
            for (std::size_t i = 0; i < length; ++i)
            {
                Stmt s;
                const bool deeper = depth < 3 && nodes < 12;
                s.kind = static_cast<int>(c.weighted({ 6, 5, deeper ? 1.5 : 0, deeper ? 1.5 : 0, deeper ? 0.7 : 0, deeper ? 0.7 : 0, 0.8, 0.3, 0.5 }));
                switch (s.kind)
                {
                case CREATE:
                    if (slots >= MAX_SLOTS) continue;
                    s.slot = slots++;
                    s.slotKind = static_cast<int>(c.weighted({ 3, 3, 3, deeper ? 1.0 : 0 }));
                    if (s.slotKind == FINALIZER) s.node = node(depth + 1);
                    else { s.atConstruction = c.flag(0.6); if (s.atConstruction) s.action = action(depth); }
                    break;
                case ADD:
                    if (!slots) continue;
                    s.slot = static_cast<int>(c.draw(static_cast<std::uint64_t>(slots)));
                    s.action = action(depth);
                    break;
                case RUN_CAUGHT: case RUN: case IN_HANDLER: case RETHROW_AFTER: s.node = node(depth + 1); break;
                case DESTROY: if (!slots) continue; s.slot = static_cast<int>(c.draw(static_cast<std::uint64_t>(slots))); break;
                default: break;
                }
                n->body.push_back(s);
            }
            return n;
        }
        Action action(int depth)
        {
            Action a;
            a.id = ++ids;
            const bool deeper = depth < 3 && nodes < 12;
            a.kind = static_cast<int>(c.weighted({ 6, 1.2, 0.8, deeper ? 0.8 : 0, deeper ? 0.8 : 0, 1, 0.6 }));
            if (a.kind == NESTED || a.kind == NESTED_CAUGHT) a.nested = node(depth + 1);
            if (a.kind == ADDS) { a.added = std::make_shared<Action>(); a.added->id = ++ids; a.added->kind = c.flag(0.3) ? THROW_INT : PLAIN; }
            return a;
        }
    };
    void print(std::ostream& o, const Node& n);
    void print(std::ostream& o, const Action& a)
    {
        static const char* const names[] = { "", "!", "!s", " try", " run", "(empty)", "+" };
        o << a.id << names[a.kind];
        if (a.nested) print(o, *a.nested);
        if (a.added) print(o, *a.added);
    }
    void print(std::ostream& o, const Node& n)
    {
        static const char* const kinds[] = { "exit", "success", "fail", "finalizer" };
        o << "{";
        for (auto& s : n.body)
        {
            o << " ";
            switch (s.kind)
            {
            case CREATE: o << kinds[s.slotKind] << " g" << s.slot; if (s.atConstruction) { o << "("; print(o, s.action); o << ")"; } if (s.node) print(o, *s.node); break;
            case ADD: o << "g" << s.slot << ".add("; print(o, s.action); o << ")"; break;
            case RUN_CAUGHT: o << "try"; print(o, *s.node); break;
            case RUN: print(o, *s.node); break;
            case IN_HANDLER: o << "in-catch"; print(o, *s.node); break;
            case RETHROW_AFTER: o << "in-catch"; print(o, *s.node); o << "rethrow"; break;
            case THROW: o << "throw"; break;
            case RETURN: o << "return"; break;
            default: o << "destroy g" << s.slot;
            }
            o << ";";
        }
        o << " }";
    }

    // ---- the model
    typedef std::vector<int> Log;
    struct Model
    {
        Log log;
        int depth{ 0 };    // exceptions in flight
        int throwsUnwinding{ 0 }, actionsRun{ 0 };
        struct Slot { int kind{ -1 }; std::vector<Action> actions{}; std::shared_ptr<Node> node{}; };

        bool canThrow() const { return THROWS_WHILE_UNWINDING || depth == 0; }
        void destroy(Slot& s, bool thrown)
        {
            const int kind = s.kind;
            s.kind = -1;
            if (kind < 0) return;
            if (kind == FINALIZER) { run(*s.node); return; }
            if ((kind == SUCCESS && thrown) || (kind == FAIL && !thrown)) return;
            while (!s.actions.empty())
            {
                const Action a = s.actions.back();
                s.actions.pop_back();
                if (a.kind == EMPTY) continue;
                log.push_back(a.id);
                ++actionsRun;
                if (a.kind == NESTED || a.kind == NESTED_CAUGHT) run(*a.nested);
                if (a.kind == ADDS) s.actions.push_back(*a.added);
            }
        }
        // true: left by an exception
        bool run(const Node& n)
        {
            log.push_back(n.id);
            Slot slots[MAX_SLOTS];
            bool thrown = false;
            for (auto& s : n.body)
            {
                bool leave = false;
                switch (s.kind)
                {
                case CREATE: slots[s.slot].kind = s.slotKind; slots[s.slot].node = s.node; slots[s.slot].actions.clear(); if (s.atConstruction) slots[s.slot].actions.push_back(s.action); break;
                case ADD: if (slots[s.slot].kind >= 0 && slots[s.slot].kind != FINALIZER) slots[s.slot].actions.push_back(s.action); break;
                case RUN_CAUGHT: run(*s.node); break;
                case RUN: thrown = leave = run(*s.node); break;
                case IN_HANDLER: thrown = leave = run(*s.node); break;
                case RETHROW_AFTER: run(*s.node); if (canThrow()) thrown = leave = true; break;
                case THROW: if (canThrow()) { if (depth) ++throwsUnwinding; thrown = leave = true; } break;
                case RETURN: leave = true; break;
                case DESTROY: destroy(slots[s.slot], false); break;
                }
                if (leave) break;
            }
            if (thrown) ++depth;
            for (int i = MAX_SLOTS; i-- > 0;) destroy(slots[i], thrown);
            if (thrown) --depth;
            log.push_back(-n.id);
            return thrown;
        }
    };

    // ---- the real thing
    struct Real
    {
        Log log;
        std::size_t limit{ 100000 };
        std::shared_ptr<int> token{ std::make_shared<int>(0) };
        void write(int id)
        {
            if (log.size() > limit) pbt::fail("repeats", "actions run without end");
            log.push_back(id);
        }
        struct Base
        {
            virtual ~Base() {}
            virtual void add(const std::function<void()>&) {}
        };
        template<class G> struct Holder : Base
        {
            G guard;
            Holder() {}
            explicit Holder(const std::function<void()>& f) : guard(f) {}
            void add(const std::function<void()>& f) override { guard.add(f); }
        };
        struct Finalizer : Base
        {
            Real& real;
            std::shared_ptr<Node> node;
            Finalizer(Real& r, std::shared_ptr<Node> n) : real(r), node(n) {}
            ~Finalizer() override { try { real.run(*node); } catch (const Boom&) {} }
        };
        std::function<void()> function(const Action& a, Base** owner)
        {
            if (a.kind == EMPTY) return {};
            const std::shared_ptr<int> keep = token;
            Real* const self = this;
            return [self, a, owner, keep]
            {
                self->write(a.id);
                switch (a.kind)
                {
                case THROW_INT: throw a.id;
                case THROW_STD: throw std::runtime_error("action");
                case NESTED_CAUGHT: try { self->run(*a.nested); } catch (const Boom&) {} break;
                case NESTED: self->run(*a.nested); break;
                case ADDS: (*owner)->add(self->function(*a.added, owner)); break;
                default: break;
                }
            };
        }
        template<class G> void create(std::unique_ptr<Base>& to, Base** owner, const Stmt& s)
        {
            if (s.atConstruction) to.reset(new Holder<G>(function(s.action, owner))); else to.reset(new Holder<G>());
            *owner = to.get();
        }
        void run(const Node& n)
        {
            struct Leave { Real& r; int id; ~Leave() { r.log.push_back(-id); } };
            write(n.id);
            const Leave leave{ *this, n.id };
            Base* owners[MAX_SLOTS] = {};
            std::unique_ptr<Base> slots[MAX_SLOTS];
            const bool can = THROWS_WHILE_UNWINDING || !unwinding();
            for (auto& s : n.body)
            {
                std::unique_ptr<Base>& slot = slots[s.slot];
                switch (s.kind)
                {
                case CREATE:
                    switch (s.slotKind)
                    {
                    case EXIT: create<pluto::on_scope_exit>(slot, &owners[s.slot], s); break;
                    case SUCCESS: create<pluto::on_scope_success>(slot, &owners[s.slot], s); break;
                    case FAIL: create<pluto::on_scope_fail>(slot, &owners[s.slot], s); break;
                    default: slot.reset(new Finalizer(*this, s.node));
                    }
                    break;
                case ADD: if (slot) slot->add(function(s.action, &owners[s.slot])); break;
                case RUN_CAUGHT: try { run(*s.node); } catch (const Boom&) {} break;
                case RUN: run(*s.node); break;
                case IN_HANDLER: try { throw 1; } catch (int) { run(*s.node); } break;
                case RETHROW_AFTER: try { throw Boom{ 0 }; } catch (const Boom&) { try { run(*s.node); } catch (const Boom&) {} if (can) throw; } break;
                case THROW: if (can) throw Boom{ n.id }; break;
                case RETURN: return;
                case DESTROY: slot.reset(); break;
                }
            }
        }
    };
}

VPROP(programs, .quick = 60000)
{
    Gen gen{ c };
    const auto program = gen.node(0);
    if (c.verbose()) print(c.out(), *program);
    Model model;
    const bool expectThrown = model.run(*program);
    Real real;
    real.limit = model.log.size() * 4 + 100;
    bool thrown = false;
    try { real.run(*program); } catch (const Boom&) { thrown = true; }
    c.nontrivial(model.actionsRun > 1);
    if (expectThrown) c.label("left by exception");
    if (model.throwsUnwinding) c.label("throw while unwinding");
    if (gen.nodes > 4) c.label("nested scopes");
    CHECK("exception", thrown == expectThrown, (expectThrown ? "the exception did not arrive" : "an exception escaped"));
    if (real.log != model.log)
    {
        std::size_t i = 0;
        while (i < real.log.size() && i < model.log.size() && real.log[i] == model.log[i]) ++i;
        const auto name = [&](const Log& l) { return i >= l.size() ? std::string("nothing") : l[i] >= 1000 ? "scope entry" : l[i] < 0 ? "scope exit" : "action " + std::to_string(l[i]); };
        pbt::fail("actions", "event " + std::to_string(i) + ": " + name(real.log) + " happened, expected " + name(model.log) + "; all events " + pbt::show(real.log) + ", expected " + pbt::show(model.log));
    }
    CHECK_EQ("released", real.token.use_count(), 1L, "actions kept alive after their guards are gone");
}
// many actions on one guard
VPROP(many_actions, .quick = 5000)
{
    const int n = static_cast<int>(c.range(0, 700));
    const int kind = static_cast<int>(c.draw(3));
    const bool leaveByThrow = c.flag(0.5);
    const int throwEvery = static_cast<int>(c.draw(4));
    NOTE(n << " actions, guard kind " << kind << (leaveByThrow ? ", left by exception" : ""));
    c.nontrivial(n > 1);
    std::vector<int> order;
    const auto fill = [&](auto& g) { for (int i = 0; i < n; ++i) g.add([&order, i, throwEvery] { order.push_back(i); if (throwEvery && i % throwEvery == 0) throw std::string("x"); }); };
    try
    {
        pluto::on_scope_exit e;
        pluto::on_scope_success s;
        pluto::on_scope_fail f;
        if (kind == 0) fill(e); else if (kind == 1) fill(s); else fill(f);
        if (leaveByThrow) throw Boom{ 1 };
    }
    catch (const Boom&) {}
    std::vector<int> expected;
    if (kind == 0 || (kind == 1) != leaveByThrow) for (int i = n; i-- > 0;) expected.push_back(i);
    CHECK_EQ("actions", order, expected, "order of actions");
}

// should a guard ever be copied or moved, its actions still run once
namespace { namespace duplicates
{
    template<class G, bool> struct Duplicate { static void run(G&) {} static const bool can = false; };
    template<class G> struct Duplicate<G, true> { static void run(G& g) { G other(std::move(g)); } static const bool can = true; };
    template<class G, bool> struct Duplicate2 { static void run(G&) {} };
    template<class G> struct Duplicate2<G, true> { static void run(G& g) { G other(static_cast<const G&>(g)); } };
    template<class G> std::vector<int> run_duplicated(int n, bool copy, bool throws)
    {
        std::vector<int> order;
        try
        {
            G g;
            for (int i = 0; i < n; ++i) g.add([&order, i] { order.push_back(i); });
            if (copy) Duplicate2<G, std::is_copy_constructible<G>::value>::run(g);
            else Duplicate<G, std::is_move_constructible<G>::value>::run(g);
            if (throws) throw Boom{ 1 };
        }
        catch (const Boom&) {}
        std::sort(order.begin(), order.end());
        return order;
    }
} }
VPROP(duplicated, .quick = 300)
{
    const int n = static_cast<int>(c.range(0, 12)), kind = static_cast<int>(c.draw(3));
    const bool copy = c.draw(2) != 0, throws = c.draw(2) != 0;
    NOTE(n << " actions, guard kind " << kind << (copy ? ", copied" : ", moved") << (throws ? ", left by exception" : ""));
    c.nontrivial(n > 0);
    const std::vector<int> got = kind == 0 ? duplicates::run_duplicated<pluto::on_scope_exit>(n, copy, throws) : kind == 1 ? duplicates::run_duplicated<pluto::on_scope_success>(n, copy, throws) : duplicates::run_duplicated<pluto::on_scope_fail>(n, copy, throws);
    // a moved success guard may have been left normally before the scope is left by an exception
    for (int i = 0; i < n; ++i) CHECK("once", std::count(got.begin(), got.end(), i) <= 1, "action " << i << " of a guard that was " << (copy ? "copied" : "moved") << " runs twice");
    if (kind == 0) CHECK("once", static_cast<int>(got.size()) == n, got.size() << " of " << n << " actions run");
}

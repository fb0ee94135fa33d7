#include "expr.h"
std::unordered_map<EKey, E*, EHash> g_tab;
std::vector<E*> g_all;

const E* eExtract(const E* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    switch (e->op) {
    case CONST: return K(e->c >> off, w);
    case EXTRACT: return eExtract(e->a, e->c + off, w);
    case CONCAT: {
        unsigned lw = e->b->w;
        if (off + w <= lw) return eExtract(e->b, off, w);
        if (off >= lw) return eExtract(e->a, off - lw, w);
        return eConcat(eExtract(e->a, 0, off + w - lw), eExtract(e->b, off, lw - off));
    }
    case ZEXT: {
        unsigned lw = e->a->w;
        if (off >= lw) return K(0, w);
        if (off + w <= lw) return eExtract(e->a, off, w);
        return eZext(eExtract(e->a, off, lw - off), w);
    }
    case SEXT: if (off + w <= e->a->w) return eExtract(e->a, off, w); break;
    case AND: case OR: case XOR: return eBin(e->op, eExtract(e->a, off, w), eExtract(e->b, off, w));
    case ITE: if (isK(e->b) || isK(e->d)) return eIte(e->a, eExtract(e->b, off, w), eExtract(e->d, off, w)); break;
    case ADD: case SUB: case MUL: if (off == 0) return eBin(e->op, eExtract(e->a, 0, w), eExtract(e->b, 0, w)); break;
    default: break;
    }
    return mk(EXTRACT, w, off, e);
}
const E* eConcat(const E* hi, const E* lo) {
    unsigned w = hi->w + lo->w;
    if (isK(hi) && isK(lo)) return K((hi->c << lo->w) | lo->c, w);
    if (isK(hi, 0)) return eZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return eExtract(lo->a, lo->c, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->c == lo->w) return eExtract(lo, 0, w);
    if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w)
        return eConcat(eExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
    // keep concats right-leaning
    if (hi->op == CONCAT) return eConcat(hi->a, eConcat(hi->b, lo));
    return mk(CONCAT, w, 0, hi, lo);
}
const E* eZext(const E* e, unsigned w) {
    if (w == e->w) return e;
    if (isK(e)) return K(e->c, w);
    if (e->op == ZEXT) return eZext(e->a, w);
    return mk(ZEXT, w, 0, e);
}
const E* eSext(const E* e, unsigned w) {
    if (w == e->w) return e;
    if (isK(e)) return K((uint64_t)sx(e->c, e->w), w);
    if (e->op == ZEXT) return eZext(e->a, w);
    if (e->op == SEXT) return eSext(e->a, w);
    return mk(SEXT, w, 0, e);
}
const E* eIte(const E* c, const E* a, const E* b) {
    if (isK(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isK(a) && isK(b)) return a->c ? c : eNot(c);
    return mk(ITE, a->w, 0, c, a, b);
}
const E* eBin(Op op, const E* a, const E* b) {
    bool cmp = op >= EQ && op <= SLE;
    unsigned w = cmp ? 1 : a->w;
    if (isK(a) && isK(b)) return K(foldBin(op, a->w, a->c, b->c), w);
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (isK(a) || (!isK(b) && a->id > b->id))) std::swap(a, b);   // constant on the right
    uint64_t m = maskw(a->w);
    switch (op) {
    case ADD: if (isK(b, 0)) return a;
        if (isK(b) && a->op == ADD && isK(a->b)) return eBin(ADD, a->a, K(a->b->c + b->c, a->w)); break;
    case SUB: if (isK(b, 0)) return a; if (a == b) return K(0, w);
        if (isK(b)) return eBin(ADD, a, K(0 - b->c, a->w)); break;
    case MUL: if (isK(b, 0)) return b; if (isK(b, 1)) return a; break;
    case AND: if (isK(b, 0)) return b; if (isK(b, m)) return a; if (a == b) return a;
        if (isK(b) && a->op == ZEXT) return eZext(eBin(AND, a->a, K(b->c, a->a->w)), a->w);
        if (isK(b) && ((b->c + 1) & b->c) == 0) { unsigned k = 0; while ((b->c >> k) & 1) k++; return eZext(eExtract(a, 0, k), a->w); }
        break;
    case OR: if (isK(b, 0)) return a; if (isK(b, m)) return b; if (a == b) return a; 
        // disjoint concat/zext forms: (x ++ 0) | zext(y)
        for (int i = 0; i < 2; i++) { const E* p = i ? b : a; const E* q = i ? a : b;
            if (p->op == CONCAT && isK(p->b, 0) && q->op == ZEXT && q->a->w <= p->b->w) return eConcat(p->a, eZext(q->a, p->b->w));
            if (p->op == ZEXT && p->a->op == CONCAT && isK(p->a->b, 0) && q->op == ZEXT && q->a->w <= p->a->b->w)
                return eZext(eConcat(p->a->a, eZext(q->a, p->a->b->w)), w);
        }
        break;
    case XOR: if (isK(b, 0)) return a; if (a == b) return K(0, w);
        if (isK(b) && a->op == XOR && isK(a->b)) return eBin(XOR, a->a, K(a->b->c ^ b->c, w));
        if (w == 1 && isK(b, 1) && a->op == ULT) return eBin(ULE, a->b, a->a);
        if (w == 1 && isK(b, 1) && a->op == ULE) return eBin(ULT, a->b, a->a);
        if (w == 1 && isK(b, 1) && a->op == SLT) return eBin(SLE, a->b, a->a);
        if (w == 1 && isK(b, 1) && a->op == SLE) return eBin(SLT, a->b, a->a);
        break;
    case SHL: if (isK(b, 0)) return a; if (isK(b)) { if (b->c >= a->w) return K(0, w); return eConcat(eExtract(a, 0, a->w - b->c), K(0, b->c)); } break;
    case LSHR: if (isK(b, 0)) return a; if (isK(b)) { if (b->c >= a->w) return K(0, w); return eZext(eExtract(a, b->c, a->w - b->c), a->w); } break;
    case ASHR: if (isK(b, 0)) return a; if (isK(b)) { if (b->c >= a->w) break; return eSext(eExtract(a, b->c, a->w - b->c), a->w); } break;
    case EQ:
        if (a == b) return K(1, 1);
        if (isK(b)) {
            if (a->w == 1) return b->c ? a : eNot(a);
            if (a->op == ZEXT) { if (b->c > maskw(a->a->w)) return K(0, 1); return eBin(EQ, a->a, K(b->c, a->a->w)); }
            if (a->op == SEXT) { if ((uint64_t)(sx(b->c & maskw(a->a->w), a->a->w)) % 1 == 0 && ((uint64_t)sx(b->c & maskw(a->a->w), a->a->w) & m) != b->c) return K(0, 1); return eBin(EQ, a->a, K(b->c, a->a->w)); }
            if (a->op == CONCAT) return eAnd(eBin(EQ, a->a, K(b->c >> a->b->w, a->a->w)), eBin(EQ, a->b, K(b->c, a->b->w)));
            if (a->op == ITE && (isK(a->b) || isK(a->d))) return eIte(a->a, eBin(EQ, a->b, b), eBin(EQ, a->d, b));
            if (a->op == ADD && isK(a->b)) return eBin(EQ, a->a, K(b->c - a->b->c, a->w));
            if (a->op == XOR && isK(a->b)) return eBin(EQ, a->a, K(b->c ^ a->b->c, a->w));
        } else {
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eBin(EQ, a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eBin(EQ, a->a, b->a);
        }
        break;
    case ULT: if (a == b) return K(0, 1); if (isK(b, 0)) return K(0, 1); if (isK(a) && a->c == m) return K(0, 1);
        if (isK(b, 1)) return eBin(EQ, a, K(0, a->w));
        if (a->op == ZEXT && isK(b)) { if (b->c > maskw(a->a->w)) return K(1, 1); return eBin(ULT, a->a, K(b->c, a->a->w)); }
        if (b->op == ZEXT && isK(a)) { if (a->c >= maskw(b->a->w)) return K(0, 1); return eBin(ULT, K(a->c, b->a->w), b->a); }
        break;
    case ULE: if (a == b) return K(1, 1); if (isK(a, 0)) return K(1, 1); if (isK(b) && b->c == m) return K(1, 1);
        if (isK(b, 0)) return eBin(EQ, a, b);
        if (a->op == ZEXT && isK(b)) { if (b->c >= maskw(a->a->w)) return K(1, 1); return eBin(ULE, a->a, K(b->c, a->a->w)); }
        if (b->op == ZEXT && isK(a)) { if (a->c > maskw(b->a->w)) return K(0, 1); return eBin(ULE, K(a->c, b->a->w), b->a); }
        break;
    case SLT: case SLE:
        if (a == b) return K(op == SLE, 1);
        { // both known non-negative: unsigned compare
            auto nn = [&](const E* e) { return isK(e) ? sx(e->c, e->w) >= 0 : e->op == ZEXT; };
            auto ng = [&](const E* e) { return isK(e) && sx(e->c, e->w) < 0; };
            if (nn(a) && nn(b)) return eBin(op == SLT ? ULT : ULE, a, b);
            if (nn(a) && ng(b)) return K(0, 1);
            if (ng(a) && nn(b)) return K(1, 1);
        }
        break;
    default: break;
    }
    return mk(op, w, 0, a, b);
}
static uint32_t g_epoch = 0;
static uint64_t ev(const E* e, const std::vector<uint8_t>& M) {
    if (e->op == CONST) return e->c;
    if (e->op == SYM) return e->c < M.size() ? M[e->c] : 0;
    if (e->ep == g_epoch) return e->ev;
    uint64_t r;
    switch (e->op) {
    case CONCAT: r = (ev(e->a, M) << e->b->w) | ev(e->b, M); break;
    case EXTRACT: r = (ev(e->a, M) >> e->c) & maskw(e->w); break;
    case ZEXT: r = ev(e->a, M); break;
    case SEXT: r = (uint64_t)sx(ev(e->a, M), e->a->w) & maskw(e->w); break;
    case ITE: r = ev(e->a, M) ? ev(e->b, M) : ev(e->d, M); break;
    default: r = foldBin(e->op, e->a->w, ev(e->a, M), ev(e->b, M));
    }
    e->ep = g_epoch; e->ev = r; return r;
}
uint64_t evalE(const E* e, const std::vector<uint8_t>& M) { g_epoch++; return ev(e, M); }

static void collect(const E* e, std::vector<uint32_t>& out, std::unordered_map<const E*, bool>& seen) {
    if (!e || e->op == CONST || seen.count(e)) return;
    seen[e] = true;
    if (e->op == SYM) { out.push_back(e->c); return; }
    if (e->vars) { out.insert(out.end(), e->vars->begin(), e->vars->end()); return; }
    collect(e->a, out, seen); collect(e->b, out, seen); collect(e->d, out, seen);
}
const std::vector<uint32_t>& varsOf(const E* e) {
    if (e->vars) return *e->vars;
    auto* v = new std::vector<uint32_t>; std::unordered_map<const E*, bool> seen;
    collect(e, *v, seen); std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end());
    e->vars = v; return *v;
}

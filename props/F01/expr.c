// F01: the expression front end (parser_expr.c, fe_misc.c, ast.c, type.c) against C semantics.
//
// The real parse_expr() is driven by a scripted token stream for one operator applied to operands which
// are either variables or constants of every arithmetic type with an arbitrary value.  The tree it returns
// is evaluated by ev(), the meaning the AST has for the code generators, and the value, the type and the
// number of times each operand is evaluated must be those of the C standard (spec section below).
#include "config.h"
#include <string.h>
#include "ast.h"
#include "fe_misc.h"
#include "lexer.h"
#include "parser.h"
#include "table.h"
#include "type.h"
#include "util.h"
#include "var.h"
#include "vp.h"

// malloc_or_die() is replaced so that the verifier sees typed objects: an Expr comes with its ghost.
void *real_malloc_or_die(size_t);
#define malloc_or_die real_malloc_or_die
#include "util/util.c"
#undef malloc_or_die

typedef struct { int fp, size, uns, rank; } ST;   // fp: 0 integer, 1 float, 2 double, 3 long double; rank 0 _Bool
typedef struct { ST t; int64_t i; long double f; int rd[3]; } V;   // value and number of reads of each operand
// Ghost of a node: the meaning of its children when it was built.
// (A pointer next to the Expr; the verifier keeps the meaning in an object of its own.)
typedef struct { V a, b, c; const Expr *pa, *pb, *pc; } GH;
typedef struct { Expr e; GH *g; } GX;
static GH *G(const Expr *e) { return ((GX*)e)->g; }

#ifdef VP_NATIVE
#define ALLOC(T) malloc(sizeof(T))
#else
#define ALLOC(T) __CPROVER_allocate(sizeof(T), 0)
#endif
void *malloc_or_die(size_t size) {
  if (size == sizeof(Expr)) {
    GX *g = ALLOC(GX);
    g->g = ALLOC(GH);
    return &g->e;
  }
  if (size == sizeof(Type)) {
    Type *t = ALLOC(Type);
    return t;
  }
  return real_malloc_or_die(size);
}

Expr *real_new_expr_bop(enum ExprKind, Type*, const Token*, Expr*, Expr*);
Expr *real_new_expr_unary(enum ExprKind, Type*, const Token*, Expr*);
Expr *real_new_expr_ternary(const Token*, Expr*, Expr*, Expr*, Type*);
Expr *real_new_expr_cast(Type*, const Token*, Expr*);
#define new_expr_bop real_new_expr_bop
#define new_expr_unary real_new_expr_unary
#define new_expr_ternary real_new_expr_ternary
#define new_expr_cast real_new_expr_cast
#include "cc/frontend/ast.c"
#undef new_expr_bop
#undef new_expr_unary
#undef new_expr_ternary
#undef new_expr_cast
static V value(const Expr *e);
Expr *new_expr_bop(enum ExprKind kind, Type *type, const Token *token, Expr *lhs, Expr *rhs) {
  Expr *e = real_new_expr_bop(kind, type, token, lhs, rhs);
  GH *g = G(e);
  g->pa = lhs, g->pb = rhs;
  g->a = value(lhs), g->b = value(rhs);
  return e;
}
Expr *new_expr_unary(enum ExprKind kind, Type *type, const Token *token, Expr *sub) {
  Expr *e = real_new_expr_unary(kind, type, token, sub);
  G(e)->pa = sub;
  G(e)->a = value(sub);
  return e;
}
Expr *new_expr_cast(Type *type, const Token *token, Expr *sub) {
  Expr *e = real_new_expr_cast(type, token, sub);
  G(e)->pa = sub;
  G(e)->a = value(sub);
  return e;
}
Expr *new_expr_ternary(const Token *token, Expr *cond, Expr *tval, Expr *fval, Type *type) {
  Expr *e = real_new_expr_ternary(token, cond, tval, fval, type);
  GH *g = G(e);
  g->pa = cond, g->pb = tval, g->pc = fval;
  g->a = value(cond), g->b = value(tval), g->c = value(fval);
  return e;
}

// ---------------------------------------------------------------- stubs: token stream, scopes
bool parsing_stmt;
Scope *global_scope;
static Scope vp_scope;
static Token *vp_tok[24];
static int vp_ntok, vp_pos;
static Line vp_line = {"f", 1, ""};
static Name vp_name[4];
static VarInfo vp_var[4];
static Type *vp_cast_type[8];

Token *fetch_token(void) { return vp_tok[vp_pos]; }
Token *match(enum TokenKind kind) {
  Token *t = vp_tok[vp_pos];
  if ((int)kind != -1 && t->kind != kind)
    return NULL;
  if (t->kind != TK_EOF)
    ++vp_pos;
  return t;
}
Token *consume(enum TokenKind kind, const char *error) {
  Token *t = match(kind);
  VP_ASSERT(t != NULL, "expected token");
  return t;
}
void unget_token(Token *token) { VP_ASSERT(vp_pos > 0 && vp_tok[vp_pos - 1] == token, "unget"); --vp_pos; }
Type *parse_raw_type(int *pstorage) {
  if (vp_tok[vp_pos]->kind != TK_INT)
    return NULL;
  if (pstorage != NULL)
    *pstorage = 0;
  return vp_cast_type[vp_tok[vp_pos++]->fixnum.flag];
}
Type *parse_declarator(Type *rawtype, Token **pident) { return rawtype; }
VarInfo *scope_find(Scope *scope, const Name *name, Scope **pscope) {
  if (pscope != NULL)
    *pscope = &vp_scope;
  return &vp_var[name - vp_name];
}
bool is_global_scope(Scope *scope) { return scope == global_scope; }
Expr *str_to_char_array_var(Scope *scope, Expr *expr) { return expr; }
static int vp_errors;
// parse_error() itself is real (fe_misc.c); its printing is not.

// ---------------------------------------------------------------- specification: types
enum { T_BOOL, T_CHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_ULLONG, T_ENUM, T_FLOAT, T_DOUBLE, T_LDOUBLE, T_N };
static Type vp_enum = {.kind = TY_FIXNUM, .fixnum = {.kind = FX_ENUM}};
static Type *real_type(int t) {
  switch (t) {
  case T_BOOL: return &tyBool;
  case T_ENUM: return &vp_enum;
  case T_FLOAT: return &tyFloat;
  case T_DOUBLE: return &tyDouble;
  case T_LDOUBLE: return &tyLDouble;
  default: return get_fixnum_type(FX_CHAR + (t - T_CHAR) / 2, (t - T_CHAR) & 1, 0);
  }
}
static ST spec_type(int t) {
  static const ST k[T_N] = {
    [T_BOOL] = {0, 1, 1, 0}, [T_CHAR] = {0, 1, 0, 1}, [T_UCHAR] = {0, 1, 1, 1}, [T_SHORT] = {0, 2, 0, 2}, [T_USHORT] = {0, 2, 1, 2},
    [T_INT] = {0, 4, 0, 3}, [T_UINT] = {0, 4, 1, 3}, [T_LONG] = {0, 8, 0, 4}, [T_ULONG] = {0, 8, 1, 4}, [T_LLONG] = {0, 8, 0, 5}, [T_ULLONG] = {0, 8, 1, 5},
    [T_ENUM] = {0, 4, 0, 3}, [T_FLOAT] = {1, 4, 0, 9}, [T_DOUBLE] = {2, 8, 0, 9}, [T_LDOUBLE] = {3, 8, 0, 9},
  };
  return k[t];
}
static const ST kInt = {0, 4, 0, 3};
static ST promote(ST t) { return t.fp == 0 && t.rank < 3 ? kInt : t; }
static ST common(ST a, ST b) {
  if (a.fp || b.fp)
    return a.fp >= b.fp ? a : b;
  a = promote(a), b = promote(b);
  if (a.uns == b.uns)
    return a.rank >= b.rank ? a : b;
  ST u = a.uns ? a : b, s = a.uns ? b : a;
  if (u.rank >= s.rank)
    return u;
  if (s.size > u.size)
    return s;
  s.uns = 1;
  return s;
}

// ---------------------------------------------------------------- specification: values

static int64_t wrapi(int64_t v, int size, int uns) {
  if (size == 1) return uns ? (int64_t)(uint8_t)v : (int64_t)(int8_t)v;
  if (size == 2) return uns ? (int64_t)(uint16_t)v : (int64_t)(int16_t)v;
  if (size == 4) return uns ? (int64_t)(uint32_t)v : (int64_t)(int32_t)v;
  return v;
}
static long double roundf_(long double f, int fp) { return fp == 1 ? (long double)(float)f : (long double)(double)f; }   // long double is double (type.c)
static int vp_ub;   // set when the C program has undefined behaviour
static V conv(V v, ST t) {
  V r = {t, 0, 0, {0}};
  if (t.fp) {
    r.f = v.t.fp ? v.f : v.t.uns ? (long double)(uint64_t)v.i : (long double)v.i;
    r.f = roundf_(r.f, t.fp);
  } else if (v.t.fp) {
    if (t.rank == 0) { r.i = v.f != 0; return r; }
#if VP_FPCONV
    if (t.uns && t.size == 8 ? !(v.f > -1 && v.f < 18446744073709551616.0L) : t.size == 8 ? !(v.f >= -9223372036854775808.0L && v.f < 9223372036854775808.0L)
        : t.uns ? !(v.f > -1 && v.f < (long double)(1LL << (t.size * 8))) : !(v.f > -(long double)(1LL << (t.size * 8 - 1)) - 1 && v.f < (long double)(1LL << (t.size * 8 - 1))))
      vp_ub = 1;
    else
      r.i = t.uns && t.size == 8 ? (int64_t)(uint64_t)v.f : (int64_t)v.f;
#else
    vp_ub = 1;
#endif
  } else
    r.i = t.rank == 0 ? v.i != 0 : wrapi(v.i, t.size, t.uns);
  return r;
}
static int truth(V v) { return v.t.fp ? v.f != 0 : v.i != 0; }
static V mki(int64_t i) { V r = {kInt, i, 0}; return r; }
// Products and quotients of arbitrary operands are uninterpreted, with the laws that a compiler may rely on.
#if defined VP_UF && !defined VP_NATIVE
int64_t __CPROVER_uninterpreted_muldiv(int k, int s, int u, int64_t x, int64_t y);
static int64_t muldiv(int k, int s, int u, int64_t x, int64_t y) {
  if (k != EX_MOD) {
    if (k == EX_MUL && (x == 0 || y == 0)) return 0;
    if (k == EX_MUL && x == 1) return y;
    if (k == EX_MUL && x == -1) return (int64_t)(0 - (uint64_t)y);
    if (y == 1) return x;
    if (k == EX_MUL && y == -1) return (int64_t)(0 - (uint64_t)x);
  }
  return __CPROVER_uninterpreted_muldiv(k, s, u, x, y);
}
#else
static int64_t muldiv(int k, int s, int u, int64_t x, int64_t y) {
  if (k == EX_MUL) return (int64_t)((uint64_t)x * (uint64_t)y);
  if (u) return k == EX_DIV ? (int64_t)((uint64_t)x / (uint64_t)y) : (int64_t)((uint64_t)x % (uint64_t)y);
  return k == EX_DIV ? x / y : x % y;
}
#endif
static V arith(int k, V a, V b) {   // operands already of the common type
  V r = {a.t, 0, 0};
  if (a.t.fp) {
    long double x = a.f, y = b.f;
    r.f = roundf_(k == EX_ADD ? x + y : k == EX_SUB ? x - y : k == EX_MUL ? x * y : x / y, a.t.fp);
    return r;
  }
  int s = a.t.size, u = a.t.uns;
  int64_t x = a.i, y = b.i;
#if defined VP_UFALL && !defined VP_NATIVE
  r.i = wrapi(__CPROVER_uninterpreted_muldiv(k, s, u, x, y), s, u);
  return r;
#endif
  switch (k) {
  case EX_ADD:
    r.i = wrapi((int64_t)((uint64_t)x + (uint64_t)y), s, u);
    if (!u && (x < 0) == (y < 0) && (r.i < 0) != (x < 0)) vp_ub = 1;
    break;
  case EX_SUB:
    r.i = wrapi((int64_t)((uint64_t)x - (uint64_t)y), s, u);
    if (!u && (x < 0) != (y < 0) && (r.i < 0) != (x < 0)) vp_ub = 1;
    break;
  case EX_MUL:     // the wrapped product is demanded even when C leaves it undefined
    r.i = wrapi(muldiv(k, s, u, x, y), s, u);
    break;
  case EX_DIV: case EX_MOD:
    if (y == 0 || (!u && y == -1 && x == (s == 4 ? INT32_MIN : INT64_MIN))) { vp_ub = 1; return r; }
    r.i = wrapi(muldiv(k, s, u, x, y), s, u);
    break;
  case EX_BITAND: r.i = x & y; break;
  case EX_BITOR: r.i = x | y; break;
  default: r.i = x ^ y; break;
  }
  return r;
}
static V shift(int k, V a, V b) {
  a = conv(a, promote(a.t));
  V r = {a.t, 0, 0};
  int w = a.t.size * 8;
  if ((b.t.uns ? (uint64_t)b.i >= (uint64_t)w : b.i < 0 || b.i >= w)) { vp_ub = 1; return r; }
#if defined VP_UF && !defined VP_NATIVE
  r.i = wrapi(__CPROVER_uninterpreted_muldiv(k, a.t.size, a.t.uns, a.i, b.i), a.t.size, a.t.uns);
  return r;
#endif
  if (k == EX_LSHIFT) r.i = wrapi((int64_t)((uint64_t)a.i << b.i), a.t.size, a.t.uns);
  else r.i = a.t.uns ? (int64_t)((uint64_t)a.i >> b.i) : a.i >> b.i;
  return r;
}
static V compare(int k, V a, V b) {
  ST t = common(a.t, b.t);
  a = conv(a, t), b = conv(b, t);
#if defined VP_UFALL && !defined VP_NATIVE
  if (!(k == EX_NE && b.i == 0))     // the truth value of a condition
    return mki(__CPROVER_uninterpreted_muldiv(k, t.size, t.uns, a.i, b.i) & 1);
#endif
  int lt, eq, gt;
  if (t.fp) lt = a.f < b.f, eq = a.f == b.f, gt = a.f > b.f;
  else if (t.uns) lt = (uint64_t)a.i < (uint64_t)b.i, eq = a.i == b.i, gt = !lt && !eq;
  else lt = a.i < b.i, eq = a.i == b.i, gt = !lt && !eq;
  return mki(k == EX_EQ ? eq : k == EX_NE ? !eq : k == EX_LT ? lt : k == EX_LE ? lt || eq : k == EX_GE ? gt || eq : gt);
}

// ---------------------------------------------------------------- meaning of the tree
static V vp_varval[4];

static ST stype(const Type *t) {
  ST r = {0, 8, 1, 5};
  if (t->kind == TY_FLONUM) { ST f = {1 + (int)t->flonum.kind, t->flonum.kind == FL_FLOAT ? 4 : 8, 0, 9}; return f; }
  if (t->kind == TY_FIXNUM) {
    static const int sz[] = {1, 2, 4, 8, 8, 4, 4}, rk[] = {1, 2, 3, 4, 5, 3, 0};
    r.size = sz[t->fixnum.kind]; r.uns = t->fixnum.is_unsigned; r.rank = rk[t->fixnum.kind];
  }
  return r;
}
#define ASSIGNED 100   // counted in rd[0]: the variable is stored once
static int same_repr(ST a, ST b) { return a.fp == b.fp && a.size == b.size && (a.fp || a.uns == b.uns); }
static V retag(V v, ST t) { v.t = t; return v; }

static void addrd(V *r, V x) { r->rd[0] += x.rd[0]; r->rd[1] += x.rd[1]; r->rd[2] += x.rd[2]; }
// Meaning of a node given the meaning of its children (no recursion: the children's meaning is ghost state).
static V value1(const Expr *e, int depth);
static V value0(const Expr *e) { VP_ASSERT(0, "harness: nested comma"); V r = {stype(e->type), 0, 0}; return r; }
static V value1_(const Expr *e) { return value1(e, 0); }
static V value(const Expr *e) { return value1(e, 1); }
static V value1(const Expr *e, int depth) {
  GH *g = G(e);
  ST t = stype(e->type);
  V r = {t, 0, 0}, a = g->a, b = g->b;
  switch (e->kind) {
  case EX_FIXNUM:
    r.i = e->fixnum;
    VP_ASSERT(t.fp == 0, "integer literal has an integer type");
    VP_ASSERT(t.rank == 0 ? (r.i == 0 || r.i == 1) : r.i == wrapi(r.i, t.size, t.uns), "literal fits its type");
    return r;
  case EX_FLONUM:
    r.f = e->flonum;
    VP_ASSERT(t.fp != 0, "floating literal has a floating type");
    VP_ASSERT(r.f != r.f || r.f == roundf_(r.f, t.fp), "floating literal fits its type");
    return r;
  case EX_VAR: {
      int n = e->var.name == &vp_name[0] ? 0 : e->var.name == &vp_name[1] ? 1 : 2;
      r.i = vp_varval[n].i, r.f = vp_varval[n].f;
      ++r.rd[n];
      return r;
    }
  default: break;
  }
  VP_ASSERT(e->kind == EX_TERNARY ? e->ternary.cond == g->pa && e->ternary.tval == g->pb && e->ternary.fval == g->pc
            : (e->kind >= EX_ADD && e->kind <= EX_COMMA) || e->kind == EX_ASSIGN ? e->bop.lhs == g->pa && (e->bop.rhs == g->pb || e->kind == EX_COMMA)
            : e->unary.sub == g->pa, "harness: children as constructed");
  if (e->kind == EX_CAST)
    r = conv(a, t);
  switch (e->kind) {
  case EX_CAST:
    addrd(&r, a);
    return r;
  case EX_POS: case EX_NEG: case EX_BITNOT:
    VP_ASSERT(same_repr(a.t, t), "operand of a unary operator has the type of the result");
    if (t.fp) r.f = e->kind == EX_NEG ? -a.f : a.f;
    else r.i = wrapi(e->kind == EX_NEG ? (int64_t)(0 - (uint64_t)a.i) : e->kind == EX_BITNOT ? ~a.i : a.i, t.size, t.uns);
    addrd(&r, a);
    return r;
  case EX_COMMA:
    if (depth == 0) return value0(e);
    b = value1_(e->bop.rhs);     // make_cond() rewrites the right hand side in place
    r = retag(b, t);
    addrd(&r, a);
    return r;
  case EX_LOGAND: case EX_LOGIOR: {
      int x = truth(a), both = x == (e->kind == EX_LOGAND);
      r.i = both ? truth(b) : x;
      addrd(&r, a);
      if (both) addrd(&r, b);
      return r;
    }
  case EX_TERNARY: {
      V c = g->c;
      VP_ASSERT(same_repr(b.t, t) && same_repr(c.t, t), "arm of a conditional has the type of the result");
      r = retag(truth(a) ? b : c, t);
      addrd(&r, a);
      return r;
    }
  case EX_LSHIFT: case EX_RSHIFT:
    VP_ASSERT(same_repr(a.t, t) && (t.fp || t.rank >= 3), "left operand of a shift has the type of the result");
    r = retag(shift(e->kind, a, b), t);
    break;
  case EX_ASSIGN:
    VP_ASSERT(e->bop.lhs->kind == EX_VAR && e->bop.lhs->var.name == &vp_name[0], "target of the assignment");
    VP_ASSERT(same_repr(a.t, t) && same_repr(b.t, t), "the assigned value has the type of the variable");
    r = retag(b, t);
    r.rd[0] += ASSIGNED;
    return r;
  case EX_EQ: case EX_NE: case EX_LT: case EX_LE: case EX_GE: case EX_GT:
    VP_ASSERT(same_repr(a.t, b.t), "operands of a comparison have the same type");
    r = retag(compare(e->kind, a, b), t);
    break;
  case EX_ADD: case EX_SUB: case EX_MUL: case EX_DIV: case EX_MOD: case EX_BITAND: case EX_BITOR: case EX_BITXOR:
    VP_ASSERT(same_repr(a.t, t) && same_repr(b.t, t), "operands of an arithmetic operator have the type of the result");
    a.t = b.t = t;
    r = arith(e->kind, a, b);
    break;
  default:
    VP_ASSERT(0, "kind of the resulting expression");
    return r;
  }
  addrd(&r, a);
  addrd(&r, b);
  return r;
}

// ---------------------------------------------------------------- operands
static void tk(enum TokenKind k) {
  Token *t = ALLOC(Token);
  t->kind = k; t->line = &vp_line; t->begin = t->end = "";
  vp_tok[vp_ntok++] = t;
}
static V operand(int n, int type, int cst, int64_t iv, double fv) {
  ST t = spec_type(type);
  V v = {t, 0, 0};
  if (t.fp) v.f = roundf_(fv, t.fp);
  else v.i = t.rank == 0 ? iv != 0 : wrapi(iv, t.size, t.uns);
  vp_varval[n] = v;
  if (cst) {
    if (t.fp) {
      tk(type == T_FLOAT ? TK_FLOATLIT : type == T_DOUBLE ? TK_DOUBLELIT : TK_LDOUBLELIT);
      vp_tok[vp_ntok - 1]->flonum = fv;
    } else {
      tk(TK_LPAR);
      tk(TK_INT);
      vp_tok[vp_ntok - 1]->fixnum.flag = n;
      vp_cast_type[n] = real_type(type);
      tk(TK_RPAR);
      tk(TK_INTLIT);
      vp_tok[vp_ntok - 1]->fixnum.value = iv;
      vp_tok[vp_ntok - 1]->fixnum.flag = 2 | TKF_UNSIGNED;
    }
  } else {
    tk(TK_IDENT);
    vp_tok[vp_ntok - 1]->ident = &vp_name[n];
    vp_var[n].ident = vp_tok[vp_ntok - 1];
    vp_var[n].type = real_type(type);
    vp_var[n].storage = 0;
    v.rd[n] = 1;
  }
  return v;
}
static void begin(void) {
  vp_ntok = vp_pos = 0;
  vp_ub = 0;
  curscope = &vp_scope;
}
static void finish(V want, int allconst, int n) {
  tk(TK_EOF);
  int ub = vp_ub;
  Expr *e = parse_expr();
  VP_ASSERT(e != NULL && vp_tok[vp_pos]->kind == TK_EOF, "whole expression is parsed");
  V got = value(e);
  ST gt = stype(e->type);
  if (gt.rank == 0 && gt.fp == 0 && want.t.rank == kInt.rank) gt = kInt;     // results of comparisons carry the type bool
  VP_ASSERT(want.t.rank == 0 ? gt.rank == 0 : same_repr(gt, want.t), "type of the expression");
  if (ub) return;
  VP_ASSERT(want.t.fp ? got.f == want.f || (got.f != got.f && want.f != want.f) : got.i == want.i, "value of the expression");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(got.rd[i] == want.rd[i], "every operand is evaluated exactly when C evaluates it");
  if (allconst)
    VP_ASSERT(e->kind == EX_FIXNUM || e->kind == EX_FLONUM, "constant operands give a constant");
}

static const int kTok[] = {
  [EX_ADD] = TK_ADD, [EX_SUB] = TK_SUB, [EX_MUL] = TK_MUL, [EX_DIV] = TK_DIV, [EX_MOD] = TK_MOD, [EX_BITAND] = TK_AND, [EX_BITOR] = TK_OR, [EX_BITXOR] = TK_HAT,
  [EX_LSHIFT] = TK_LSHIFT, [EX_RSHIFT] = TK_RSHIFT, [EX_EQ] = TK_EQ, [EX_NE] = TK_NE, [EX_LT] = TK_LT, [EX_LE] = TK_LE, [EX_GE] = TK_GE, [EX_GT] = TK_GT,
  [EX_LOGAND] = TK_LOGAND, [EX_LOGIOR] = TK_LOGIOR, [EX_COMMA] = TK_COMMA,
};

#ifndef VP_OP
#define VP_OP EX_ADD
#endif
#ifndef VP_LT
#define VP_LT T_INT
#endif
#ifndef VP_NAN
#define VP_NAN 1
#endif
// What C says about `a k b'.
static V apply(int k, V a, V b) {
  V w;
  switch (k) {
  case EX_LSHIFT: case EX_RSHIFT: w = shift(k, a, b); break;
  case EX_EQ: case EX_NE: case EX_LT: case EX_LE: case EX_GE: case EX_GT: w = compare(k, a, b); break;
  case EX_LOGAND: case EX_LOGIOR: {
      int x = truth(a), both = x == (k == EX_LOGAND);
      w = mki(both ? truth(b) : x);
      addrd(&w, a);
      if (both) addrd(&w, b);
      return w;
    }
  case EX_COMMA:
    w = b;
    addrd(&w, a);
    return w;
  default: {
      ST t = common(a.t, b.t);
      w = arith(k, conv(a, t), conv(b, t));
    }
    break;
  }
  w.rd[0] = w.rd[1] = w.rd[2] = 0;
  addrd(&w, a);
  addrd(&w, b);
  return w;
}
static void binary_case(int lt, int rt, int mode, int64_t li, int64_t ri, double lf, double rf) {
  begin();
  V a = operand(0, lt, mode & 1, li, lf);
  tk(kTok[VP_OP]);
  V b = operand(1, rt, mode >> 1, ri, rf);
  finish(apply(VP_OP, a, b), mode == 3, 2);
}
static int intonly(int k) { return k == EX_MOD || k == EX_BITAND || k == EX_BITOR || k == EX_BITXOR || k == EX_LSHIFT || k == EX_RSHIFT; }
#ifndef VP_MODES
#define VP_MODES 15
#endif
#ifndef VP_RTS
#define VP_RTS 0xfff
#endif
#define FOR_RT(rt) for (int rt = 0; rt < T_N; ++rt) if (VP_RTS >> rt & 1)
void harness_binary(void) {
  VP_ND(int64_t, li);
  VP_ND(int64_t, ri);
  FOR_RT(rt)
    for (int mode = 0; mode < 4; ++mode)
      if (!(intonly(VP_OP) && (VP_LT >= T_FLOAT || rt >= T_FLOAT)) && (VP_MODES & (1 << mode)))
        binary_case(VP_LT, rt, mode, li, ri, 0, 0);
  VP_WITNESS("end");
}

// Multiplication and division of two constants: enumerated.
static const int64_t kPair[][2] = {
  {7, 2}, {-7, 2}, {7, -2}, {-7, -2}, {INT32_MIN, -1}, {INT64_MIN, 3}, {5, 0}, {0, 5}, {-1, 3}, {3, -1}, {0x80000001LL, 10}, {1, 0x100000003LL}, {100000, 100000},
};
void harness_muldiv(void) {
  for (int i = 0; i < (int)(sizeof(kPair) / sizeof(kPair[0])); ++i)
    FOR_RT(rt)
      binary_case(VP_LT, rt, 3, kPair[i][0], kPair[i][1], 0, 0);
  VP_WITNESS("end");
}

// Casts and unary operators.
static const int kUnary[] = {TK_SUB, TK_ADD, TK_TILDA, TK_NOT};
static void unary_case(int k, int t, int cst, int64_t v, double f) {
  begin();
  tk(kUnary[k]);
  V a = operand(0, t, cst, v, f), w = a;
  if (k == 3)
    w = mki(!truth(a));
  else {
    w = conv(a, promote(a.t));
    if (w.t.fp) w.f = k == 0 ? -w.f : w.f;
    else {
      if (k == 0 && !w.t.uns && w.i == (w.t.size == 4 ? INT32_MIN : INT64_MIN)) vp_ub = 1;
      w.i = wrapi(k == 0 ? (int64_t)(0 - (uint64_t)w.i) : k == 2 ? ~w.i : w.i, w.t.size, w.t.uns);
    }
  }
  w.rd[0] = a.rd[0], w.rd[1] = w.rd[2] = 0;
  finish(w, cst, 1);
}
void harness_unary(void) {
  VP_ND(int64_t, v);
  for (int k = 0; k < 4; ++k)
    for (int t = 0; t <= T_ENUM; ++t)
      for (int cst = 0; cst < 2; ++cst)
        unary_case(k, t, cst, v, 0);
  VP_WITNESS("end");
}
static void cast_case(int from, int to, int cst, int64_t v, double f) {
  begin();
  tk(TK_LPAR);
  tk(TK_INT);
  vp_tok[vp_ntok - 1]->fixnum.flag = 3;
  vp_cast_type[3] = real_type(to);
  tk(TK_RPAR);
  V a = operand(0, from, cst, v, f), w = conv(a, spec_type(to));
  w.rd[0] = a.rd[0], w.rd[1] = w.rd[2] = 0;
  finish(w, cst, 1);
}
void harness_cast(void) {
  VP_ND(int64_t, v);
  for (int to = 0; to <= T_ENUM; ++to)
    for (int cst = 0; cst < 2; ++cst)
      cast_case(VP_LT, to, cst, v, 0);
  VP_WITNESS("end");
}
// a ? b : c
static void ternary_case(int mode, int t1, int t2, int64_t c, int64_t x, int64_t y, double xf, double yf) {
  begin();
  V a = operand(0, T_INT, mode & 1, c, 0);
  tk(TK_QUESTION);
  V b = operand(1, t1, mode >> 1 & 1, x, xf);
  tk(TK_COLON);
  V d = operand(2, t2, mode >> 2, y, yf);
  ST t = common(b.t, d.t);
  V w = conv(truth(a) ? b : d, t);
  w.rd[0] = a.rd[0], w.rd[1] = truth(a) ? b.rd[1] : 0, w.rd[2] = truth(a) ? 0 : d.rd[2];
  finish(w, mode == 7, 3);
}
void harness_ternary(void) {
  VP_ND(int64_t, c);
  VP_ND(int64_t, x);
  VP_ND(int64_t, y);
  FOR_RT(rt)
    for (int mode = 0; mode < 8; ++mode)
      if (mode == 0 || mode == 1 || mode >= 6)
        ternary_case(mode, VP_LT, rt, c, x, y, 0, 0);
  VP_WITNESS("end");
}
// a op= b, and a = b
static void assign_case(int k, int lt, int rt, int cst, int64_t li, int64_t ri, double lf, double rf) {
  static const int kAssign[] = {
    [EX_ADD] = TK_ADD_ASSIGN, [EX_SUB] = TK_SUB_ASSIGN, [EX_MUL] = TK_MUL_ASSIGN, [EX_DIV] = TK_DIV_ASSIGN, [EX_MOD] = TK_MOD_ASSIGN, [EX_BITAND] = TK_AND_ASSIGN,
    [EX_BITOR] = TK_OR_ASSIGN, [EX_BITXOR] = TK_HAT_ASSIGN, [EX_LSHIFT] = TK_LSHIFT_ASSIGN, [EX_RSHIFT] = TK_RSHIFT_ASSIGN,
  };
  begin();
  V a = operand(0, lt, 0, li, lf);
  tk(k < 0 ? TK_ASSIGN : kAssign[k]);
  V b = operand(1, rt, cst, ri, rf);
  V w = conv(k < 0 ? b : apply(k, a, b), spec_type(lt));
  w.rd[0] = k < 0 ? 0 : 1, w.rd[1] = b.rd[1], w.rd[2] = 0;
  w.rd[0] += ASSIGNED;
  finish(w, 0, 2);
}
void harness_assign(void) {
  VP_ND(int64_t, li);
  VP_ND(int64_t, ri);
  FOR_RT(rt)
    for (int cst = 0; cst < 2; ++cst)
      assign_case(VP_OP == EX_ASSIGN ? -1 : VP_OP, VP_LT, rt, cst, li, ri, 0, 0);
  VP_WITNESS("end");
}
// a op1 b op2 c for every pair of operators; unsigned operands, so that only the grouping matters.
static int prec(int k) {
  switch (k) {
  case EX_MUL: case EX_DIV: case EX_MOD: return 12;
  case EX_ADD: case EX_SUB: return 11;
  case EX_LSHIFT: case EX_RSHIFT: return 10;
  case EX_LT: case EX_LE: case EX_GE: case EX_GT: return 9;
  case EX_EQ: case EX_NE: return 8;
  case EX_BITAND: return 7;
  case EX_BITXOR: return 6;
  case EX_BITOR: return 5;
  case EX_LOGAND: return 4;
  case EX_LOGIOR: return 3;
  default: return 2;
  }
}
#ifndef VP_NEAR
#define VP_NEAR 0
#endif
static void prec_case(int k1, int k2, int64_t x, int64_t y, int64_t z) {
  begin();
  V a = operand(0, T_UINT, 0, x, 0);
  tk(kTok[k1]);
  V b = operand(1, T_UINT, 0, y, 0);
  tk(kTok[k2]);
  V c = operand(2, T_UINT, 0, z, 0);
  finish(prec(k1) >= prec(k2) ? apply(k2, apply(k1, a, b), c) : apply(k1, a, apply(k2, b, c)), 0, 3);
}
void harness_prec(void) {
  VP_ND(int64_t, x);
  VP_ND(int64_t, y);
  VP_ND(int64_t, z);
  for (int k2 = EX_ADD; k2 <= EX_COMMA; ++k2)
    if (k2 != EX_ASSIGN && (!VP_NEAR || (prec(VP_OP) - prec(k2) <= 1 && prec(k2) - prec(VP_OP) <= 1)))
      prec_case(VP_OP, k2, x, y, z);
  VP_WITNESS("end");
}
// a ? b : c op d, a op b ? c : d, unary operators and casts against binary ones
#ifndef VP_PART
#define VP_PART 0
#endif
void harness_prec2(void) {
  VP_ND(int64_t, x);
  VP_ND(int64_t, y);
  VP_ND(int64_t, z);
  for (int k = EX_ADD; k <= EX_LOGIOR; ++k) {
    if (VP_PART == 0) {
    begin();
    V a = operand(0, T_UINT, 0, x, 0);
    tk(kTok[k]);
    V b = operand(1, T_UINT, 0, y, 0);
    tk(TK_QUESTION);
    V c = operand(2, T_UINT, 0, z, 0);
    tk(TK_COLON);
    V d = operand(3, T_UINT, 1, 5, 0);
    V q = apply(k, a, b), w = truth(q) ? c : d;
    addrd(&w, q);
    finish(w, 0, 3);
    }
    if (VP_PART == 1) {
    begin();
    V a = operand(0, T_UINT, 0, x, 0);
    tk(TK_QUESTION);
    V b = operand(1, T_UINT, 0, y, 0);
    tk(TK_COLON);
    V d = operand(3, T_UINT, 1, 5, 0);
    tk(kTok[k]);
    V c = operand(2, T_UINT, 0, z, 0);
    V q = apply(k, d, c), w = truth(a) ? conv(b, common(b.t, q.t)) : conv(q, common(b.t, q.t));
    w.rd[0] = a.rd[0], w.rd[1] = truth(a), w.rd[2] = truth(a) ? 0 : q.rd[2];
    finish(w, 0, 3);
    }
    if (VP_PART == 2) {
    begin();
    tk(TK_TILDA);
    V a = operand(0, T_UINT, 0, x, 0);
    tk(kTok[k]);
    tk(TK_SUB);
    V b = operand(1, T_UINT, 0, y, 0);
    V na = a, nb = b;
    na.i = wrapi(~a.i, 4, 1), nb.i = wrapi((int64_t)(0 - (uint64_t)b.i), 4, 1);
    finish(apply(k, na, nb), 0, 2);
    }
  }
  VP_WITNESS("end");
}

// Floating point operands: enumerated values (a NaN or an infinity only in a variable).
#define NANV (__builtin_inf() - __builtin_inf())
#ifndef VP_NFP
#define VP_NFP 2
#endif
#ifndef VP_OFF
#define VP_OFF 2
#endif
void harness_fp(void) {
  static const int64_t kI[] = {3, -1, 0, 1, INT64_MIN + 1};
  static const double kF[] = {0.1, 1.0, -0.0, 16777217.0, -1.0};
  const double kSpecial[] = {__builtin_inf(), NANV, 2.5, 1e-320, NANV};
  FOR_RT(rt) if (!(intonly(VP_OP)) && (VP_LT >= T_FLOAT || rt >= T_FLOAT)) {
    for (int mode = 0; mode < 4; ++mode)
      for (int i = 0; i < VP_NFP; ++i)
        binary_case(VP_LT, rt, mode, kI[i], kI[(i + 2) % 5], mode & 1 ? kF[i] : kSpecial[i], mode & 2 ? kF[(i + VP_OFF) % 5] : kSpecial[(i + 3) % 5]);
  }
  VP_WITNESS("end");
}
void harness_fp2(void) {
  static const int64_t kI[] = {3, -1, INT64_MIN + 1};
  static const double kF[] = {0.1, -0.0, 16777217.0};
  static const double kC[] = {2.75, -3.5, 9223372036854775808.0};
  for (int i = 0; i < (VP_NFP < 3 ? VP_NFP : 3); ++i)
    for (int t = T_FLOAT; t <= T_LDOUBLE - (VP_NFP < 3); ++t)
      for (int cst = 0; cst < 2; ++cst) {
        unary_case(0, t, cst, 0, kF[i]);
        unary_case(3, t, cst, 0, cst ? kF[i] : NANV);
        FOR_RT(to) {
          cast_case(t, to, cst, 0, kC[i]);
          if (to < T_FLOAT)
            cast_case(to, t, cst, kI[i], 0);
          ternary_case(cst * 6, t, to, i & 1, 5, 7, 0.1, 0.7);
        }
      }
  VP_WITNESS("end");
}

// A condition compared with a constant, from either side and through a cast; its negation; conditions of conditions.
static void cond_case(int k1, int k2, int form, int ct, int t, int64_t x, int64_t y, int64_t c, double xf, double yf) {
  begin();
  V cv = {kInt, 0, 0};
  if (form == 1 || form == 4) {
    cv = operand(3, ct, 1, c, (double)(c & 3) / 2);
    tk(kTok[k2]);
  }
  if (form == 2) tk(TK_NOT);
  if (form >= 3) {
    tk(TK_LPAR);
    tk(TK_INT);
    vp_tok[vp_ntok - 1]->fixnum.flag = 2;
    vp_cast_type[2] = real_type(form == 3 ? T_UCHAR : T_BOOL);
    tk(TK_RPAR);
  }
  tk(TK_LPAR);
  V a = operand(0, t, 0, x, xf);
  tk(kTok[k1]);
  V b = operand(1, t, 0, y, yf);
  tk(TK_RPAR);
  V q = apply(k1, a, b), w = q;
  if (form >= 3) {
    w = conv(q, spec_type(form == 3 ? T_UCHAR : T_BOOL));
    w.rd[0] = q.rd[0], w.rd[1] = q.rd[1], w.rd[2] = 0;
  }
  if (form == 0 || form == 3) {
    tk(kTok[k2]);
    cv = operand(3, ct, 1, c, (double)(c & 3) / 2);
    w = apply(k2, w, cv);
  } else if (form == 1 || form == 4) {
    w = apply(k2, cv, w);
  } else {
    w = mki(!truth(q));
    addrd(&w, q);
  }
  finish(w, 0, 2);
}
#ifndef VP_FORM
#define VP_FORM 0
#endif
#ifndef VP_K2
#define VP_K2 EX_EQ
#endif
void harness_cond(void) {
  VP_ND(int64_t, x);
  VP_ND(int64_t, y);
  VP_ND(int64_t, c);
  static const double kF[][2] = {{1.0, 2.0}, {2.0, 2.0}, {0.0, 0.0}, {0.5, 0.0}, {-1.0, 1.0}};
  FOR_RT(ct)
    cond_case(VP_OP, VP_K2, VP_FORM, ct, VP_LT, x, y, c, 0, 0);
  for (int j = 0; j < VP_NFP; ++j)
    for (int cc = 0; cc < 2; ++cc)
      cond_case(VP_OP, VP_K2, VP_FORM, cc == 0 ? T_INT : T_DOUBLE, T_DOUBLE, 0, 0, cc == 0 ? j & 1 : 2, j == 1 ? NANV : kF[j][0], kF[j][1]);
  VP_WITNESS("end");
}

#ifndef VP_NATIVE_ENTRY
#define VP_NATIVE_ENTRY VP_ENTRY
#endif
#ifdef VP_NATIVE
VP_MAIN(VP_NATIVE_ENTRY)
#endif

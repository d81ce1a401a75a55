package rstype

func MaxDomain(lhs, rhs) result
  props C09
  ensures upper: lhs <= result && rhs <= result
  ensures least: result == lhs || result == rhs

// A type is below another when it is the same, or both are numbers and its domain is no larger.
spec typeLe(a RsType, b RsType) bool = a.kind == b.kind && ite(a.kind == KindArithmos, a.arithmosDomain <= b.arithmosDomain, a.arithmosDomain == b.arithmosDomain)
// Types as the constructors make them: only numbers have a domain.
spec typeOK(a RsType) bool = (a.kind == KindArithmos && (a.arithmosDomain == ArithmosDomainNat || a.arithmosDomain == ArithmosDomainInt || a.arithmosDomain == ArithmosDomainReal)) || ((a.kind == KindEmpty || a.kind == KindEnum) && a.arithmosDomain == ArithmosDomainUnknown)

func Empty() result
  props C09
  ensures fresh(result) && result != nil && result.kind == KindEmpty && typeOK(*result)

func Enum() result
  props C09
  ensures fresh(result) && result != nil && result.kind == KindEnum && typeOK(*result)

func Arithmos(domain) result
  props C09
  ensures fresh(result) && result != nil && result.kind == KindArithmos && result.arithmosDomain == domain

func Unify(lhs, rhs) (result, err)
  props C09
  requires lhs != nil ==> typeOK(*lhs)
  requires rhs != nil ==> typeOK(*rhs)
  ensures left only: rhs == nil ==> err == nil && result == lhs
  ensures right only: lhs == nil ==> err == nil && result == rhs
  ensures unrelated: lhs != nil && rhs != nil && lhs.kind != rhs.kind ==> err != nil && result == nil
  ensures related: lhs != nil && rhs != nil && lhs.kind == rhs.kind ==> err == nil && result != nil
  ensures well formed: result != nil ==> typeOK(*result)
  ensures upper bound: err == nil && lhs != nil ==> typeLe(*lhs, *result)
  ensures upper bound right: err == nil && rhs != nil ==> typeLe(*rhs, *result)
  ensures least: err == nil && lhs != nil && rhs != nil ==> typeLe(*result, *lhs) || typeLe(*result, *rhs)

package value

func IntValue.Type(i) result
  props C09
  requires i != nil
  ensures number: result != nil && result.kind == rstype.KindArithmos && typeOK(*result)
  ensures natural or integer: result.arithmosDomain == ite(0 <= *i, rstype.ArithmosDomainNat, rstype.ArithmosDomainInt)
  ensures fresh(result)

func EnumValue.Type(e) result
  props C09
  ensures enumeration: result != nil && result.kind == rstype.KindEnum && typeOK(*result)
  ensures fresh(result)

// The least type of a value.
spec hasType(v Value, t rstype.RsType) bool = typeOK(t) && ite(v.content == nil, t.kind == rstype.KindEmpty, ite(dyn(v.content, *IntValue), t.kind == rstype.KindArithmos && t.arithmosDomain == ite(0 <= *as(v.content, *IntValue), rstype.ArithmosDomainNat, rstype.ArithmosDomainInt), t.kind == rstype.KindEnum))

func Value.Type(v) result
  props C09
  requires v != nil
  ensures its type: result != nil && fresh(result) && hasType(*v, *result)

// The same by kind and domain: t covers v; t is no larger than v needs.
spec valueKind(v Value) int = ite(v.content == nil, rstype.KindEmpty, ite(dyn(v.content, *IntValue), rstype.KindArithmos, rstype.KindEnum))
spec valueDomain(v Value) int = ite(v.content != nil && dyn(v.content, *IntValue), ite(0 <= *as(v.content, *IntValue), rstype.ArithmosDomainNat, rstype.ArithmosDomainInt), rstype.ArithmosDomainUnknown)
spec covers(t rstype.RsType, v Value) bool = t.kind == valueKind(v) && valueDomain(v) <= t.arithmosDomain
spec attains(t rstype.RsType, v Value) bool = t.kind == valueKind(v) && t.arithmosDomain == valueDomain(v)

lemma Covers(t rstype.RsType, u rstype.RsType, v Value)
  props C09
  requires hasType(v, t) && typeOK(u)
  ensures covers: covers(u, v) <==> typeLe(t, u)
  ensures attains: attains(u, v) <==> typeLe(t, u) && typeLe(u, t)

package stm

func Builder.inferEventType(b, event) err
  props C09
  requires b != nil && event != nil && b.stm.Types != nil
  requires forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  modifies b.stm.Types
  ensures recorded: err == nil ==> has(b.stm.Types, event.Channel.Name)
  ensures others kept: all(c, string, c != event.Channel.Name ==> has(b.stm.Types, c) == old(has(b.stm.Types, c)) && (has(b.stm.Types, c) ==> b.stm.Types[c] == old(b.stm.Types[c])))
  ensures well formed: err == nil ==> forallkey(c, b.stm.Types, b.stm.Types[c] != nil && typeOK(*b.stm.Types[c]))
  ensures covers the value: err == nil ==> covers(*b.stm.Types[event.Channel.Name], event.Value)
  ensures covers the earlier values: err == nil && old(has(b.stm.Types, event.Channel.Name)) ==> typeLe(old(*b.stm.Types[event.Channel.Name]), *b.stm.Types[event.Channel.Name])
  ensures least: err == nil ==> attains(*b.stm.Types[event.Channel.Name], event.Value) || (old(has(b.stm.Types, event.Channel.Name)) && typeLe(*b.stm.Types[event.Channel.Name], old(*b.stm.Types[event.Channel.Name])))
  ensures fails only if unrelated: err != nil ==> old(has(b.stm.Types, event.Channel.Name)) && valueKind(event.Value) != old(b.stm.Types[event.Channel.Name].kind)

func unifyTypes(tests) (result, err)
  props C09
  requires forallkey(n, tests, tests[n] != nil && forallkey(c, tests[n].Types, tests[n].Types[c] != nil && typeOK(*tests[n].Types[c])))
  inv{m:TypeMap} well formed: m != nil && forallkey(c, m, m[c] != nil && typeOK(*m[c]))
  inv{m:TypeMap} covered: all(n, string, DONE(n) ==> forallkey(c, tests[n].Types, has(m, c) && typeLe(*tests[n].Types[c], *m[c])))
  inv{m:TypeMap} covered outside: all(n, string, OUTERDONE(n) && !same(tests[n].Types, ITERATED()) ==> forallkey(c, tests[n].Types, has(m, c) && typeLe(*tests[n].Types[c], *m[c])))
  inv{m:TypeMap} covered inside: all(c, string, DONE(c) ==> has(m, c) && typeLe(*ITERATED()[c], *m[c]))
  inv{m:TypeMap} attained: forallkey(c, m, existskey(n, tests, has(tests[n].Types, c) && typeLe(*m[c], *tests[n].Types[c])))
  ensures exactly one per channel: err == nil ==> forallkey(n, tests, forallkey(c, tests[n].Types, has(result, c) && result[c] != nil && typeLe(*tests[n].Types[c], *result[c])))
  ensures least: err == nil ==> forallkey(c, result, result[c] != nil && existskey(n, tests, has(tests[n].Types, c) && typeLe(*result[c], *tests[n].Types[c])))
  ensures fails only if unrelated: err != nil ==> existskey(n, tests, existskey(m, tests, existskey(c, tests[n].Types, has(tests[m].Types, c) && tests[n].Types[c].kind != tests[m].Types[c].kind)))

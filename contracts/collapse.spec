// C04: collapsing

package trace

// The node reached from r after i steps, always to the first continuation.
rec down(r *testlang.Node, i int) *testlang.Node = ite(i <= 0, r, &down(r, i - 1).Next[0])

spec incNode(n *testlang.Node) bool = n != nil && nodeOK(n) && n.Outcome == testlang.OutcomeInc
spec passNodeOK(n *testlang.Node) bool = n != nil && nodeOK(n) && n.Outcome == testlang.OutcomePass
spec failNodeOK(n *testlang.Node) bool = n != nil && nodeOK(n) && n.Outcome == testlang.OutcomeFail

// r is the root of a chain of k inconclusive nodes, then one passing node, then one failing node.
rec chainOf(r *testlang.Node, k int) bool = r != nil && rootOK(r) && len(down(r, 0).Next) == 1 && 0 <= k && forall(i, 1, k + 1, incNode(down(r, i)) && len(down(r, i).Next) == 1) && passNodeOK(down(r, k + 1)) && failNodeOK(down(r, k + 2))

func Collapse(test) (result, err)
  props C04
  inv{p:int, n:*testlang.Node} position: 1 <= p && same(n, down(test, p - 1)) && n != nil
  inv{p:int, n:*testlang.Node} next position: same(&n.Next[0], down(test, p))
  inv{p:int, c:Forbidden} shape: len(c.Prefix) + 1 <= p && p <= len(c.Prefix) + 3 && (len(c.Prefix) + 2 <= p ==> passNodeOK(down(test, len(c.Prefix) + 1))) && (len(c.Prefix) + 3 == p ==> failNodeOK(down(test, len(c.Prefix) + 2)))
  inv{c:Forbidden} inconclusive: forall(i, 1, len(c.Prefix) + 1, incNode(down(test, i)))
  inv{p:int} no branches: forall(i, 0, p - 1, len(down(test, i).Next) == 1)
  inv{c:Forbidden} prefix: forall(i, 0, len(c.Prefix), keptEvent(c.Prefix[i], *down(test, i + 1).Event))
  inv{p:int, c:Forbidden} forbidden: len(c.Prefix) + 2 <= p ==> keptEvent(c.Forbid, *down(test, len(c.Prefix) + 1).Event)
  inv{p:int, c:Forbidden, passed:bool} passed: passed <==> p == len(c.Prefix) + 2
  inv{p:int, c:Forbidden, done:bool} done: done <==> p == len(c.Prefix) + 3
  ensures only chains: err == nil ==> chainOf(test, len(result.Prefix))
  ensures the events of the chain: err == nil ==> keptEvent(result.Forbid, *down(test, len(result.Prefix) + 1).Event) && forall(i, 0, len(result.Prefix), keptEvent(result.Prefix[i], *down(test, i + 1).Event))
  ensures every chain: err != nil ==> all(k, int, !chainOf(test, k))

spec collapsed(r *testlang.Node, c Forbidden) bool = chainOf(r, len(c.Prefix)) && keptEvent(c.Forbid, *down(r, len(c.Prefix) + 1).Event) && forall(i, 0, len(c.Prefix), keptEvent(c.Prefix[i], *down(r, i + 1).Event))
spec noChain(r *testlang.Node) bool = all(k, int, !chainOf(r, k))

func CollapseAll(suite) (result, err)
  props C04
  inv{m:map[string]Forbidden} only: forallkey(k, m, DONE(k) && has(suite, k))
  inv{m:map[string]Forbidden} collapsed: forallkey(k, m, collapsed(suite[k], m[k]))
  inv{m:map[string]Forbidden} all: all(k, string, DONE(k) ==> has(m, k))
  ensures nothing else: err == nil ==> forallkey(k, result, has(suite, k))
  ensures every test: err == nil ==> forallkey(k, suite, has(result, k))
  ensures each collapsed: err == nil ==> forallkey(k, suite, collapsed(suite[k], result[k]))
  ensures rejects: err != nil ==> result == nil && existskey(k, suite, noChain(suite[k]))

// The node after i steps from the root of an expansion of t.
spec stepOf(n *testlang.Node, t Forbidden, i int) bool = n != nil && len(n.Tests) == 1 && ite(len(t.Prefix) + 2 == i, n.Outcome == testlang.OutcomeFail && n.Event == nil && len(n.Next) == 0, n.Event != nil && len(n.Next) == 1 && ite(i <= len(t.Prefix), n.Outcome == testlang.OutcomeInc && keptEvent(*n.Event, t.Prefix[i - 1]), n.Outcome == testlang.OutcomePass && keptEvent(*n.Event, t.Forbid)))

lemma ExpansionDown(r *testlang.Node, t Forbidden, name string, i int)
  props C04
  requires expansion(r, t, name) && 1 <= i && i <= len(t.Prefix) + 2
  induct i
  ensures chain: chain(*down(r, i), t, i - 1, name)
  ensures step: stepOf(down(r, i), t, i)

lemma CollapseExpand(t Forbidden, name string)
  props C04
  call (r) = Forbidden.Expand(t, name)
  use ExpansionDown(r, t, name, _)
  use ExpansionDown(r, t, name, len(t.Prefix) + 1)
  use ExpansionDown(r, t, name, len(t.Prefix) + 2)
  have chain: chainOf(r, len(t.Prefix))
  call (c, err) = Collapse(r)
  have accepted: err == nil
  have same length: len(c.Prefix) == len(t.Prefix)
  use ExpansionDown(r, t, name, _)
  use ExpansionDown(r, t, name, len(c.Prefix) + 1)
  ensures accepted: err == nil
  ensures same length: len(c.Prefix) == len(t.Prefix)
  ensures same prefix: forall(i, 0, len(t.Prefix), keptEvent(c.Prefix[i], t.Prefix[i]))
  ensures same event: keptEvent(c.Forbid, t.Forbid)

// C03, C04: expanding and collapsing

package trace

spec onlyTest(ts []string, name string) bool = len(ts) == 1 && ts[0] == name
spec keptEvent(e testlang.Event, f testlang.Event) bool = e.Channel.Name == f.Channel.Name && e.Channel.Kind == f.Channel.Kind && same(e.Value, f.Value)

// Node n and what follows it is the chain for t from its ith event on.
rec chain(n testlang.Node, t Forbidden, i int, name string) bool = onlyTest(n.Tests, name) && n.ID == "" && ite(len(t.Prefix) < i, n.Outcome == testlang.OutcomeFail && n.Event == nil && len(n.Next) == 0, n.Event != nil && len(n.Next) == 1 && chain(n.Next[0], t, i + 1, name) && ite(i < len(t.Prefix), n.Outcome == testlang.OutcomeInc && keptEvent(*n.Event, t.Prefix[i]), n.Outcome == testlang.OutcomePass && keptEvent(*n.Event, t.Forbid)))

func Forbidden.Expand(t, name) result
  props C03
  inv{n:testlang.Node, i:int} chain: chain(n, t, i + 1, name)
  inv{i:int} range: 0 - 1 <= i && i < len(t.Prefix)
  ensures the chain: expansion(result, t, name)

// n is the root of the test for t called name.
spec expansion(n *testlang.Node, t Forbidden, name string) bool = n != nil && n.Event == nil && n.Outcome == testlang.OutcomeUnset && onlyTest(n.Tests, name) && n.ID == "" && len(n.Next) == 1 && chain(n.Next[0], t, 0, name)

func ExpandAll(traces) result
  props C03
  inv{m:map[string]*testlang.Node} only: forallkey(k, m, DONE(k) && expansion(m[k], traces[k], k))
  inv{m:map[string]*testlang.Node} all: all(k, string, DONE(k) ==> has(m, k))
  ensures every trace under its own name: forallkey(k, traces, has(result, k) && expansion(result[k], traces[k], k))
  ensures nothing else: forallkey(k, result, has(traces, k))

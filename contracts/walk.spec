// C06: walks

package testlang

// One letter per node: a text of letters is a list of nodes.
spec letter(n *Node) string = fn("letter", string, n)

// The nodes below n in pre-order, and those below its first k continuations.
rec preorder(n *Node) string = letter(n) + firstOnes(n, len(n.Next))
rec firstOnes(n *Node, k int) string = ite(k <= 0, "", firstOnes(n, k - 1) + preorder(&n.Next[k - 1]))

// What is pending on the stack s, if pending says what lies below each position.
spec pendingOK(s *structure.Stack[*Node], pending fn[int, string]) bool = pending[0] == "" && forall(j, 0, len(s.items), pending[j + 1] == preorder(s.items[j]) + pending[j])

func Walk(node, function) err
  props C06
  ghost visited string = ""
  ghost pending fn[int, string] = always(int, "")
  ghost last error = nil
  requires node != nil
  at function(n) stops at the first error: last == nil
  after function(n) (e): visited = visited + letter(n)
  after function(n) (e): last = e
  after structure.Stack.Push(s, n): pending = upd(pending, len(s.items), preorder(n) + pending[len(s.items) - 1])
  inv{s:*structure.Stack[*Node]} size: s.count == len(s.items) && fresh(s) && (base(s.items) == 0 || fresh(s.items))
  inv{s:*structure.Stack[*Node]} nodes: forall(j, 0, len(s.items), s.items[j] != nil)
  inv{s:*structure.Stack[*Node]} pending: pendingOK(s, pending)
  inv{s:*structure.Stack[*Node]} top: 0 < len(s.items) ==> pending[len(s.items)] == preorder(s.items[len(s.items) - 1]) + pending[len(s.items) - 1]
  inv{s:*structure.Stack[*Node]} rest: visited + pending[len(s.items)] == preorder(node)
  inv{s:*structure.Stack[*Node], n:*Node, i:int} rest with continuations: visited + (firstOnes(n, i + 1) + pending[len(s.items)]) == preorder(node)
  inv{n:*Node, i:int} index: 0 - 1 <= i && i < len(n.Next)
  inv no error: last == nil
  ensures every node in order: err == nil ==> visited == preorder(node)
  ensures nothing after an error: err != nil ==> some(r, string, preorder(node) == visited + r)
  ensures error at the end: err == nil ==> last == nil
  ensures that error: err != nil ==> same(err, last)

spec marked(n *Node, tests []string) bool = len(n.Tests) == len(tests) && forall(i, 0, len(tests), n.Tests[i] == tests[i])

// The continuation c is visited or pending on s (where at says).
spec known(c *Node, seen fn[*Node, bool], s *structure.Stack[*Node], at fn[*Node, int]) bool = seen[c] || 0 <= at[c] && at[c] < len(s.items) && s.items[at[c]] == c

// The visited nodes, seen, are all marked, contain the root, and with each node its continuations: so all nodes are marked.
func MarkAll(node, tests)
  props C06
  ghost seen fn[*Node, bool] = always(*Node, false)
  ghost at fn[*Node, int] = always(*Node, 0)
  requires node != nil
  modifies any
  after Node.Mark(n, ts): seen = upd(seen, n, true)
  after structure.Stack.Push(s, n): at = upd(at, n, len(s.items) - 1)
  inv{s:*structure.Stack[*Node]} size: s.count == len(s.items) && fresh(s) && (base(s.items) == 0 || fresh(s.items))
  inv{s:*structure.Stack[*Node]} nodes: forall(j, 0, len(s.items), s.items[j] != nil)
  inv{s:*structure.Stack[*Node]} positions: forall(j, 0, len(s.items), known(s.items[j], seen, s, at))
  inv marked: all(m, *Node, seen[m] ==> marked(m, tests))
  inv{s:*structure.Stack[*Node]} root: known(node, seen, s, at)
  inv{s:*structure.Stack[*Node]} closed: all(m, *Node, seen[m] ==> forall(j, 0, len(m.Next), known(&m.Next[j], seen, s, at)))
  inv{s:*structure.Stack[*Node], n:*Node} closed but here: all(m, *Node, seen[m] && m != n ==> forall(j, 0, len(m.Next), known(&m.Next[j], seen, s, at)))
  inv{s:*structure.Stack[*Node], n:*Node, i:int} closed but for the rest: forall(j, i + 1, len(n.Next), known(&n.Next[j], seen, s, at))
  inv{n:*Node} visited here: seen[n]
  inv{n:*Node, i:int} index: 0 - 1 <= i && i < len(n.Next)
  inv shape: all(m, *Node, old(alloced(m)) ==> same(m.Next, old(m.Next)) && m.Event == old(m.Event) && m.Outcome == old(m.Outcome) && m.ID == old(m.ID))
  inv others: all(m, *Node, old(alloced(m)) && !seen[m] ==> same(m.Tests, old(m.Tests)))
  ensures the root: seen[node]
  ensures all below: all(m, *Node, seen[m] ==> forall(j, 0, len(m.Next), seen[&m.Next[j]]))
  ensures all marked: all(m, *Node, seen[m] ==> marked(m, tests))
  ensures shape: all(m, *Node, old(alloced(m)) ==> same(m.Next, old(m.Next)) && m.Event == old(m.Event) && m.Outcome == old(m.Outcome) && m.ID == old(m.ID))
  ensures others: all(m, *Node, old(alloced(m)) && !seen[m] ==> same(m.Tests, old(m.Tests)))

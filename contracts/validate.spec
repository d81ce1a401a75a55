package validate

spec rootOK(n *testlang.Node) bool = n.Event == nil && n.Outcome == testlang.OutcomeUnset && 0 < len(n.Tests)
spec nodeOK(n *testlang.Node) bool = 0 < len(n.Tests) && (((n.Outcome == testlang.OutcomeInc && 0 < len(n.Next)) || (n.Outcome == testlang.OutcomePass && len(n.Next) == 1)) && n.Event != nil || n.Outcome == testlang.OutcomeFail && n.Event == nil && len(n.Next) == 0)

func Root(node) err
  props C05 C04
  ensures exactly the rule: err == nil <==> node != nil && rootOK(node)

func Node(node) err
  props C05 C04
  requires node != nil
  ensures exactly the rule: err == nil <==> nodeOK(node)

func failNode(node) err
  props C05
  requires node != nil
  ensures exactly the rule: err == nil <==> node.Event == nil && len(node.Next) == 0

func passNode(node) err
  props C05
  requires node != nil
  ensures exactly the rule: err == nil <==> len(node.Next) == 1

func nonFailNode(node) err
  props C05
  requires node != nil
  ensures exactly the rule: err == nil <==> node.Event != nil && 0 < len(node.Next)

func OneNext(node) (result, err)
  props C05 C04
  requires node != nil
  ensures exactly the rule: err == nil <==> len(node.Next) == 1
  ensures that node: err == nil ==> same(result, &node.Next[0])
  ensures nothing otherwise: err != nil ==> result == nil

// Every node of the tree below n obeys its rule.
rec okBelow(n *testlang.Node, root *testlang.Node) bool = forall(i, 0, len(n.Next), ite(&n.Next[i] == root, rootOK(&n.Next[i]), nodeOK(&n.Next[i])) && okBelow(&n.Next[i], root))
spec okTree(n *testlang.Node, root *testlang.Node) bool = n != nil && ite(n == root, rootOK(n), nodeOK(n)) && okBelow(n, root)

func Full(root) (result, err)
  props C05
  inv{s:*structure.Stack[*testlang.Node]} size: s.count == len(s.items) && fresh(s) && (base(s.items) == 0 || fresh(s.items))
  inv{s:*structure.Stack[*testlang.Node]} nodes: forall(j, 0, len(s.items), s.items[j] != nil || s.items[j] == root)
  inv{s:*structure.Stack[*testlang.Node]} nothing lost: forall(j, 0, len(s.items), okTree(s.items[j], root)) ==> okTree(root, root)
  inv{s:*structure.Stack[*testlang.Node]} nothing invented: okTree(root, root) ==> forall(j, 0, len(s.items), okTree(s.items[j], root))
  inv{s:*structure.Stack[*testlang.Node]} next: okTree(root, root) && 0 < len(s.items) ==> okTree(s.items[len(s.items)-1], root)
  inv{s:*structure.Stack[*testlang.Node], n:*testlang.Node, i:int} rest lost: forall(j, 0, len(s.items), okTree(s.items[j], root)) && forall(j, 0, i + 1, okTree(&n.Next[j], root)) ==> okTree(root, root) && okTree(n, root)
  inv{s:*structure.Stack[*testlang.Node], n:*testlang.Node, i:int} rest invented: okTree(root, root) ==> okTree(n, root) && forall(j, 0, i + 1, okTree(&n.Next[j], root))
  inv{n:*testlang.Node, i:int} index: 0 - 1 <= i && i < len(n.Next)
  ensures accepts exactly the well formed: err == nil <==> okTree(root, root)
  ensures that very test: err == nil ==> result != nil && result.root == root
  ensures nothing otherwise: err != nil ==> result == nil

func FullSuite(suite) (result, err)
  props C05
  inv{m:map[string]*Test} only: forallkey(k, m, DONE(k) && has(suite, k))
  inv{m:map[string]*Test} valid: forallkey(k, m, okTree(suite[k], suite[k]))
  inv{m:map[string]*Test} that test: forallkey(k, m, m[k] != nil && alloced(m[k]) && m[k].root == suite[k])
  inv{m:map[string]*Test} all: all(k, string, DONE(k) ==> has(m, k))
  ensures nothing else: err == nil ==> forallkey(k, result, has(suite, k))
  ensures every test: err == nil ==> forallkey(k, suite, has(result, k))
  ensures each valid: err == nil ==> forallkey(k, suite, okTree(suite[k], suite[k]))
  ensures that very test: err == nil ==> forallkey(k, suite, result[k] != nil && result[k].root == suite[k])
  ensures rejects: err != nil ==> result == nil && existskey(k, suite, !okTree(suite[k], suite[k]))

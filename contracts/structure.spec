package structure

// C21: the collection types

spec stackOK(s *Stack[T]) bool = s.count == len(s.items)

func Stack.Push(s, item)
  props C21
  requires s != nil && s.count == len(s.items)
  modifies s, s.items
  ensures invariant: s.count == len(s.items)
  ensures grows: len(s.items) == old(len(s.items)) + 1
  ensures top: s.items[old(len(s.items))] == item
  ensures rest: forall(i, 0, old(len(s.items)), s.items[i] == old(s.items[i]))
  ensures storage: base(s.items) == old(base(s.items)) || fresh(s.items)

func Stack.Pop(s)
  props C21
  requires s != nil && s.count == len(s.items) && len(s.items) > 0
  modifies s
  ensures invariant: s.count == len(s.items)
  ensures shrinks: len(s.items) == old(len(s.items)) - 1
  ensures lifo: result == old(s.items[len(s.items)-1])
  ensures rest: forall(i, 0, len(s.items), s.items[i] == old(s.items[i]))
  ensures storage: base(s.items) == old(base(s.items))

func Stack.IsEmpty(s)
  props C21
  requires s != nil && s.count == len(s.items)
  ensures result == (len(s.items) == 0)

func Stack.Clear(s)
  props C21
  requires s != nil
  modifies s
  ensures invariant: s.count == len(s.items)
  ensures len(s.items) == 0
  ensures storage: base(s.items) == 0 || fresh(s.items)

func Set.Add(s, values)
  props C21
  requires s != nil && s.contents != nil
  modifies s.contents
  inv added: forall(i, 0, ITER, has(s.contents, values[i]) && s.contents[values[i]])
  inv kept: all(x, T, entry(has(s.contents, x)) ==> has(s.contents, x) && (entry(s.contents[x]) ==> s.contents[x]))
  inv only: all(x, T, has(s.contents, x) && s.contents[x] ==> entry(has(s.contents, x) && s.contents[x]) || exists(i, 0, ITER, values[i] == x))
  ensures same handle: same(s.contents, old(s.contents))
  ensures added: forall(i, 0, len(values), has(s.contents, values[i]) && s.contents[values[i]])
  ensures kept: all(x, T, old(has(s.contents, x) && s.contents[x]) ==> has(s.contents, x) && s.contents[x])
  ensures only: all(x, T, has(s.contents, x) && s.contents[x] ==> old(has(s.contents, x) && s.contents[x]) || exists(i, 0, len(values), values[i] == x))

func NewSet(values) result
  props C21
  ensures fresh: fresh(result.contents)
  ensures added: forall(i, 0, len(values), has(result.contents, values[i]) && result.contents[values[i]])
  ensures only: all(x, T, has(result.contents, x) && result.contents[x] ==> exists(i, 0, len(values), values[i] == x))

func Set.Values(s) result
  props C21
  requires s != nil
  inv{v:[]T} members: forall(i, 0, len(v), DONE(v[i]) && has(s.contents, v[i]) && s.contents[v[i]])
  inv{v:[]T} all: all(x, T, DONE(x) && s.contents[x] ==> exists(i, 0, len(v), v[i] == x))
  inv{v:[]T} once: forall(i, 0, len(v), forall(j, 0, len(v), v[i] == v[j] ==> i == j))
  ensures members: forall(i, 0, len(result), has(s.contents, result[i]) && s.contents[result[i]])
  ensures all: all(x, T, has(s.contents, x) && s.contents[x] ==> exists(i, 0, len(result), result[i] == x))
  ensures once: forall(i, 0, len(result), forall(j, 0, len(result), result[i] == result[j] ==> i == j))

func TryOverMapValues(input, mapper) (m, err)
  props C21
  inv{m:map[K]U} image: forallkey(k, m, DONE(k) && nth(apply(mapper, input[k]), 1) == nil && m[k] == nth(apply(mapper, input[k]), 0))
  inv{m:map[K]U} all: all(k, K, DONE(k) ==> has(m, k) && nth(apply(mapper, input[k]), 1) == nil)
  ensures image: err == nil ==> forallkey(k, m, has(input, k) && m[k] == nth(apply(mapper, input[k]), 0))
  ensures keys: err == nil ==> forallkey(k, input, has(m, k))
  ensures succeeds: forallkey(k, input, nth(apply(mapper, input[k]), 1) == nil) ==> err == nil
  ensures fails: existskey(k, input, nth(apply(mapper, input[k]), 1) != nil) ==> err != nil && m == nil
  ensures error: err != nil ==> existskey(k, input, same(err, nth(apply(mapper, input[k]), 1)))

func OverMap(input, mapper) m
  props C21
  inv{m:map[L]U} all: all(k, K, DONE(k) ==> has(m, nth(apply(mapper, k, input[k]), 0)))
  inv{m:map[L]U} image: forallkey(l, m, existskey(k, input, DONE(k) && l == nth(apply(mapper, k, input[k]), 0) && m[l] == nth(apply(mapper, k, input[k]), 1)))
  ensures all: forallkey(k, input, has(m, nth(apply(mapper, k, input[k]), 0)))
  ensures image: forallkey(l, m, existskey(k, input, l == nth(apply(mapper, k, input[k]), 0) && m[l] == nth(apply(mapper, k, input[k]), 1)))

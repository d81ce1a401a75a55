package value

// What equality of values means: both absent, the same integer, or the same enumeration text.
spec sameValue(a Value, b Value) bool = (a.content == nil && b.content == nil) || (a.content != nil && b.content != nil && ((dyn(a.content, *IntValue) && dyn(b.content, *IntValue) && *as(a.content, *IntValue) == *as(b.content, *IntValue)) || (dyn(a.content, *EnumValue) && dyn(b.content, *EnumValue) && *as(a.content, *EnumValue) == *as(b.content, *EnumValue))))

func Value.Equals(v, other) result
  props C11
  requires v != nil
  ensures same value: result == sameValue(*v, other)

package channel

func Channel.Equals(c, other) result
  props C11
  requires c != nil
  ensures same name and kind: result == (c.Name == other.Name && c.Kind == other.Kind)

package testlang

spec sameEvent(a Event, b Event) bool = a.Channel.Name == b.Channel.Name && a.Channel.Kind == b.Channel.Kind && sameValue(a.Value, b.Value)

func Event.Equals(e, other) result
  props C11
  requires e != nil
  ensures same event: result == sameEvent(*e, other)

package trace

func Trace.IsPrefixOf(t, other) result
  props C11
  inv agrees so far: forall(i, 0, ITER, sameEvent(t[i], other[i]))
  ensures prefix: result == (len(t) <= len(other) && forall(i, 0, len(t), sameEvent(t[i], other[i])))

func Trace.Equals(t, other) result
  props C11 C18
  ensures equal: result == (len(t) == len(other) && forall(i, 0, len(t), sameEvent(t[i], other[i])))

package channel

spec kindText(k Kind, s string) bool = k == KindIn && s == "in" || k == KindOut && s == "out" || k == KindCall && s == "call"
spec isKindText(s string) bool = s == "in" || s == "out" || s == "call"
spec kindOf(s string) Kind = ite(s == "in", KindIn, ite(s == "out", KindOut, KindCall))
spec okKind(k Kind) bool = k == KindIn || k == KindOut || k == KindCall

func New(name, kind) result
  props C10
  ensures made: result.Name == name && result.Kind == kind

func Channel.IsIn(c) result
  props C12 C18
  requires c != nil
  ensures result <==> c.Kind == KindIn

func Channel.IsOut(c) result
  requires c != nil
  ensures result <==> c.Kind == KindOut

func Channel.IsCall(c) result
  requires c != nil
  ensures result <==> c.Kind == KindCall

func Channel.IsEmpty(c) result
  props C10
  requires c != nil
  ensures result <==> c.Name == ""

func Kind.String(x) result
  props C10
  ensures keyword: okKind(x) ==> kindText(x, result)

func ParseKind(name) (result, err)
  props C10
  ensures exactly the keywords in any case: err == nil <==> isKindText(strings.ToLower(name))
  ensures that kind: err == nil ==> kindText(result, strings.ToLower(name))

func Kind.MarshalText(x) (result, err)
  props C10
  ensures no error: err == nil
  ensures keyword: okKind(x) ==> kindText(x, string(result))

func Kind.UnmarshalText(x, text) err
  props C10
  requires x != nil
  modifies x
  ensures exactly the keywords in any case: err == nil <==> isKindText(strings.ToLower(string(text)))
  ensures that kind: err == nil ==> kindText(*x, strings.ToLower(string(text)))
  ensures untouched on error: err != nil ==> *x == old(*x)

spec nameOf(s string) string = trim(fn("before", string, s, "."))
spec restOf(s string) string = fn("after", string, s, ".")
spec kindPart(s string) string = strings.ToLower(trim(ite(strings.Contains(restOf(s), "."), fn("before", string, restOf(s), "."), restOf(s))))
spec goodChannel(s string) bool = strings.Contains(s, ".") && nameOf(s) != "" && isKindText(kindPart(s))
spec hasValue(s string) bool = strings.Contains(restOf(s), ".")
spec valuePart(s string) string = fn("after", string, restOf(s), ".")

func Channel.MarshalText(c) (result, err)
  props C10
  requires c != nil
  ensures no error: err == nil
  ensures name and kind: c.Name != "" && okKind(c.Kind) ==> string(result) == c.Name + "." + ite(c.Kind == KindIn, "in", ite(c.Kind == KindOut, "out", "call"))
  ensures empty: c.Name == "" ==> string(result) == ""
  ensures not nil: result != nil

func Channel.UnmarshalTextWithRemainder(c, text) (rest, err)
  props C10
  requires c != nil
  modifies c
  ensures exactly the well-formed texts: err == nil <==> goodChannel(string(text))
  ensures name: err == nil ==> c.Name == nameOf(string(text))
  ensures kind: err == nil ==> kindText(c.Kind, kindPart(string(text)))
  ensures value or none: err == nil ==> (rest != nil <==> hasValue(string(text)))
  ensures value: err == nil && rest != nil ==> string(rest) == valuePart(string(text))

func Channel.UnmarshalText(c, text) err
  props C10
  requires c != nil
  modifies c
  ensures exactly the well-formed texts: err == nil <==> goodChannel(string(text))
  ensures name: err == nil ==> c.Name == nameOf(string(text))
  ensures kind: err == nil ==> kindText(c.Kind, kindPart(string(text)))

lemma ChannelRoundTrip(c *Channel, d *Channel)
  props C10
  requires c != nil && d != nil && c != d
  requires c.Name != "" && trim(c.Name) == c.Name && !strings.Contains(c.Name, ".") && okKind(c.Kind)
  call (bs, err) = Channel.MarshalText(c)
  call err2 = Channel.UnmarshalText(d, bs)
  ensures written: err == nil
  ensures read: err2 == nil
  ensures same name: d.Name == old(c.Name)
  ensures same kind: d.Kind == old(c.Kind)

lemma KindRoundTrip(k Kind, x *Kind)
  props C10
  requires okKind(k) && x != nil
  call (bs, err) = Kind.MarshalText(k)
  call err2 = Kind.UnmarshalText(x, bs)
  ensures equal: err == nil && err2 == nil && *x == k

package rstype

// The types the notation has words for, and the words.
spec typeWord(t RsType, s string) bool = t.kind == KindEmpty && s == "()" || t.kind == KindEnum && s == "enum" || t.kind == KindArithmos && (t.arithmosDomain == ArithmosDomainNat && s == "nat" || t.arithmosDomain == ArithmosDomainInt && s == "int" || t.arithmosDomain == ArithmosDomainReal && s == "real")
spec okType(t RsType) bool = t.kind == KindEmpty || t.kind == KindEnum || t.kind == KindArithmos && (t.arithmosDomain == ArithmosDomainNat || t.arithmosDomain == ArithmosDomainInt || t.arithmosDomain == ArithmosDomainReal)
spec isTypeWord(s string) bool = s == "()" || s == "enum" || s == "nat" || s == "int" || s == "real"
// Types as their constructors make them: only numbers have a domain.
spec normalType(t RsType) bool = okType(t) && (t.kind != KindArithmos ==> t.arithmosDomain == ArithmosDomainUnknown)

func RsType.tryString(t) (result, ok)
  props C10
  requires t != nil
  ensures exactly the types with a word: ok <==> okType(*t)
  ensures word: ok ==> typeWord(*t, result)

func RsType.MarshalText(t) (result, err)
  props C10
  requires t != nil
  ensures exactly the types with a word: err == nil <==> okType(*t)
  ensures word: err == nil ==> typeWord(*t, string(result))

func RsType.String(t) result
  props C10
  requires t != nil
  ensures word: okType(*t) ==> typeWord(*t, result)

func RsType.UnmarshalText(t, text) err
  props C10
  requires t != nil
  modifies t
  ensures exactly the words in any case: err == nil <==> isTypeWord(strings.ToLower(string(text)))
  ensures that type: err == nil ==> typeWord(*t, strings.ToLower(string(text))) && normalType(*t)

lemma TypeRoundTrip(t *RsType, u *RsType)
  props C10
  requires t != nil && u != nil && normalType(*t)
  call (bs, err) = RsType.MarshalText(t)
  call err2 = RsType.UnmarshalText(u, bs)
  ensures equal: err == nil && err2 == nil && u.kind == old(t.kind) && u.arithmosDomain == old(t.arithmosDomain)

package value

spec okValue(v Value) bool = v.content != nil && (dyn(v.content, *IntValue) || dyn(v.content, *EnumValue))
spec valueText(v Value, s string) bool = v.content != nil && (dyn(v.content, *IntValue) && s == strconv.Itoa(*as(v.content, *IntValue)) || dyn(v.content, *EnumValue) && s == string(*as(v.content, *EnumValue)))
// Reading: an integer if the text is one, otherwise an enumeration value.
spec valueOf(v Value, s string) bool = v.content != nil && ite(fn("parseintok", bool, s), dyn(v.content, *IntValue) && *as(v.content, *IntValue) == fn("parseint", int, s), dyn(v.content, *EnumValue) && *as(v.content, *EnumValue) == s)

func Value.IsEmpty(v) result
  props C10
  requires v != nil
  ensures result <==> v.content == nil

func IntValue.MarshalText(i) (result, err)
  props C10
  requires i != nil
  ensures decimal: err == nil && string(result) == strconv.Itoa(*i)

func IntValue.UnmarshalText(i, text) err
  props C10
  requires i != nil
  modifies i
  ensures exactly the integers: err == nil <==> fn("parseintok", bool, string(text))
  ensures that integer: err == nil ==> *i == fn("parseint", int, string(text))

func EnumValue.MarshalText(e) (result, err)
  props C10
  requires e != nil
  ensures the text itself: err == nil && string(result) == string(*e)

func EnumValue.UnmarshalText(e, text) err
  props C10
  requires e != nil
  modifies e
  ensures any text: err == nil && string(*e) == string(text)

func Value.MarshalText(v) (result, err)
  props C10
  requires v != nil
  ensures exactly the present values: err == nil <==> v.content != nil
  ensures text: err == nil ==> valueText(*v, string(result))

func Value.UnmarshalText(v, text) err
  props C10
  requires v != nil
  modifies v
  ensures always: err == nil
  ensures value: valueOf(*v, trim(string(text)))

func IntValue.StringValue(i) result
  props C10 C17
  requires i != nil
  ensures decimal: result == strconv.Itoa(*i)

func EnumValue.StringValue(e) result
  props C10
  requires e != nil
  ensures the text itself: result == string(*e)

package testlang

// The text of an event: name, kind keyword and value, if any, with dots between.
spec kindWord(k channel.Kind) string = ite(k == channel.KindIn, "in", ite(k == channel.KindOut, "out", "call"))
spec plainName(s string) bool = s != "" && trim(s) == s && !strings.Contains(s, ".")

func Event.MarshalText(e) (result, err)
  props C10
  requires e != nil && (e.Value.content == nil || okValue(e.Value))
  ensures no error: err == nil
  ensures without value: e.Value.content == nil && e.Channel.Name != "" && okKind(e.Channel.Kind) ==> string(result) == e.Channel.Name + "." + kindWord(e.Channel.Kind)
  ensures with value: e.Value.content != nil && e.Channel.Name != "" && okKind(e.Channel.Kind) ==> some(s, string, valueText(e.Value, s) && string(result) == e.Channel.Name + "." + kindWord(e.Channel.Kind) + "." + s)
  ensures absent: e.Value.content == nil && e.Channel.Name == "" ==> string(result) == ""

func Event.UnmarshalText(e, text) err
  props C10 C01
  requires e != nil
  modifies *e
  ensures exactly the well-formed texts: err == nil <==> goodChannel(string(text))
  ensures name: err == nil ==> e.Channel.Name == nameOf(string(text))
  ensures kind: err == nil ==> kindText(e.Channel.Kind, kindPart(string(text)))
  ensures no value: err == nil && !hasValue(string(text)) ==> e.Value == old(e.Value)
  ensures value: err == nil && hasValue(string(text)) ==> valueOf(e.Value, trim(valuePart(string(text))))
  ensures can be written and read again: err == nil && old(e.Value.content) == nil ==> plainEvent(*e)

// An event on a plainly named channel carrying nothing, an integer, or a trimmed enumeration text that is not a number.
spec plainEvent(e Event) bool = plainName(e.Channel.Name) && okKind(e.Channel.Kind) && (e.Value.content == nil || okValue(e.Value) && (dyn(e.Value.content, *value.IntValue) ==> -9223372036854775807 <= *as(e.Value.content, *value.IntValue) + 1 && *as(e.Value.content, *value.IntValue) <= 9223372036854775807) && (dyn(e.Value.content, *value.EnumValue) ==> trim(string(*as(e.Value.content, *value.EnumValue))) == string(*as(e.Value.content, *value.EnumValue)) && !fn("parseintok", bool, string(*as(e.Value.content, *value.EnumValue)))))

lemma EventRoundTrip(e *Event, d *Event)
  props C10
  requires e != nil && d != nil && e != d && plainEvent(*e) && d.Value.content == nil
  call (bs, err) = Event.MarshalText(e)
  call err2 = Event.UnmarshalText(d, bs)
  ensures written: err == nil
  ensures read: err2 == nil
  ensures same name: d.Channel.Name == old(e.Channel.Name)
  ensures same kind: d.Channel.Kind == old(e.Channel.Kind)
  ensures no value: old(e.Value.content) == nil ==> d.Value.content == nil
  ensures value iff: old(e.Value.content) != nil ==> d.Value.content != nil
  ensures same integer: old(e.Value.content != nil && dyn(e.Value.content, *value.IntValue)) ==> dyn(d.Value.content, *value.IntValue) && *as(d.Value.content, *value.IntValue) == old(*as(e.Value.content, *value.IntValue))
  ensures same enumeration: old(e.Value.content != nil && dyn(e.Value.content, *value.EnumValue)) ==> dyn(d.Value.content, *value.EnumValue) && *as(d.Value.content, *value.EnumValue) == old(*as(e.Value.content, *value.EnumValue))

// C17: names and literals in generated code

package strmanip

// The first i characters of s, with the first one in upper case.
rec upcased(s string, i int) string = ite(i <= 0, "", upcased(s, i - 1) + runeStr(ite(i == 1, fn("toupper", rune, runeAt(s, 0)), runeAt(s, i - 1))))

func UpcaseFirst(ident) result
  props C17
  inv{b:strings.Builder} so far: string(b) == upcased(ident, ITER)
  ensures first letter in upper case, the rest as it is: result == upcased(ident, runeCount(ident))

spec lowerBefore(s string, i int) bool = 0 < i && fn("islower", bool, runeAt(s, i - 1))
// The first i characters of s in lower case, with an underscore between each lower-case letter and an upper-case letter directly after it.
rec underscored(s string, i int) string = ite(i <= 0, "", underscored(s, i - 1) + ite(fn("isupper", bool, runeAt(s, i - 1)) && lowerBefore(s, i - 1), "_", "") + runeStr(fn("tolower", rune, runeAt(s, i - 1))))

func ToLowerUnderscored(ident) result
  props C17
  ensures lower case with underscores: result == underscored(ident, runeCount(ident))

func formatter.format(s, ident) result
  props C17
  requires s != nil && s.mode == formatModeLowerUnderscored && string(s.sb) == "" && !s.lastLower
  modifies s
  inv so far: string(s.sb) == underscored(ident, ITER)
  inv last: s.lastLower == lowerBefore(ident, ITER)
  inv mode: s.mode == formatModeLowerUnderscored
  ensures lower case with underscores: result == underscored(ident, runeCount(ident))

package gen/cpp

func CallbackName(cha) result
  props C17
  ensures result == cha + "Callback"

func ChannelMsgType(cha) result
  props C17
  ensures result == upcased(cha, runeCount(cha)) + "Msg"

func ChannelValueType(cha) result
  props C17
  ensures result == upcased(cha, runeCount(cha)) + "Val"

func ConvertTo(cha) result
  props C17
  ensures result == "to" + upcased(cha, runeCount(cha))

func ConvertFrom(cha) result
  props C17
  ensures result == "from" + upcased(cha, runeCount(cha))

func StateEntry(id) result
  props C17
  ensures result == "enter" + upcased(string(id), runeCount(string(id)))

func StateEnum(id) result
  props C17
  ensures upper-cased and qualified: result == "State::" + strings.ToUpper(string(id))

func TestEnum(name) result
  props C17
  ensures upper-cased and qualified: result == "Test::" + strings.ToUpper(name)

func OutcomeEnum(outcome) result
  props C17
  requires outcome == testlang.OutcomeUnset || outcome == testlang.OutcomeInc || outcome == testlang.OutcomePass || outcome == testlang.OutcomeFail
  ensures upper-cased and qualified: result == "rtcg::Outcome::" + ite(outcome == testlang.OutcomeUnset, "UNSET", ite(outcome == testlang.OutcomeInc, "INC", ite(outcome == testlang.OutcomePass, "PASS", "FAIL")))

func StdType(rsType) result
  props C17
  ensures enumeration: rsType.kind == rstype.KindEnum ==> result == "std::string"
  ensures natural: rsType.kind == rstype.KindArithmos && rsType.arithmosDomain == rstype.ArithmosDomainNat ==> result == "unsigned int"
  ensures integer: rsType.kind == rstype.KindArithmos && rsType.arithmosDomain == rstype.ArithmosDomainInt ==> result == "int"
  ensures real: rsType.kind == rstype.KindArithmos && rsType.arithmosDomain == rstype.ArithmosDomainReal ==> result == "double"
  ensures anything else: rsType.kind != rstype.KindEnum && rsType.kind != rstype.KindArithmos ==> result == "void *"

func Value(val) result
  props C17
  ensures number: val.content != nil && dyn(val.content, *value.IntValue) ==> result == strconv.Itoa(*as(val.content, *value.IntValue))
  ensures enumeration: val.content != nil && dyn(val.content, *value.EnumValue) ==> result == "\"" + string(*as(val.content, *value.EnumValue)) + "\""
  ensures none: val.content == nil ==> result == ""

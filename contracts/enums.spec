// C10: keywords of the enumerations (channel.Kind is in text.spec)

package testlang

spec outcomeText(k Outcome, s string) bool = k == OutcomeUnset && s == "unset" || k == OutcomeInc && s == "inc" || k == OutcomeFail && s == "fail" || k == OutcomePass && s == "pass"
spec isoutcomeText(s string) bool = s == "unset" || s == "inc" || s == "fail" || s == "pass"
spec okoutcome(k Outcome) bool = k == OutcomeUnset || k == OutcomeInc || k == OutcomeFail || k == OutcomePass

func Outcome.String(x) result
  props C10
  ensures keyword: okoutcome(x) ==> outcomeText(x, result)

func ParseOutcome(name) (result, err)
  props C10
  ensures exactly the keywords in any case: err == nil <==> isoutcomeText(strings.ToLower(name))
  ensures that one: err == nil ==> outcomeText(result, strings.ToLower(name))

func Outcome.MarshalText(x) (result, err)
  props C10
  ensures no error: err == nil
  ensures keyword: okoutcome(x) ==> outcomeText(x, string(result))

func Outcome.UnmarshalText(x, text) err
  props C10
  requires x != nil
  modifies x
  ensures exactly the keywords in any case: err == nil <==> isoutcomeText(strings.ToLower(string(text)))
  ensures that one: err == nil ==> outcomeText(*x, strings.ToLower(string(text)))
  ensures untouched on error: err != nil ==> *x == old(*x)

lemma OutcomeRoundTrip(k Outcome, x *Outcome)
  props C10
  requires okoutcome(k) && x != nil
  call (bs, err) = Outcome.MarshalText(k)
  call err2 = Outcome.UnmarshalText(x, bs)
  ensures equal: err == nil && err2 == nil && *x == k

package rstype

spec arithmosdomainText(k ArithmosDomain, s string) bool = k == ArithmosDomainUnknown && s == "unknown" || k == ArithmosDomainNat && s == "nat" || k == ArithmosDomainInt && s == "int" || k == ArithmosDomainReal && s == "real"
spec isarithmosdomainText(s string) bool = s == "unknown" || s == "nat" || s == "int" || s == "real"
spec okarithmosdomain(k ArithmosDomain) bool = k == ArithmosDomainUnknown || k == ArithmosDomainNat || k == ArithmosDomainInt || k == ArithmosDomainReal

func ArithmosDomain.String(x) result
  props C10
  ensures keyword: okarithmosdomain(x) ==> arithmosdomainText(x, result)

func ParseArithmosDomain(name) (result, err)
  props C10
  ensures exactly the keywords in any case: err == nil <==> isarithmosdomainText(strings.ToLower(name))
  ensures that one: err == nil ==> arithmosdomainText(result, strings.ToLower(name))

func ArithmosDomain.MarshalText(x) (result, err)
  props C10
  ensures no error: err == nil
  ensures keyword: okarithmosdomain(x) ==> arithmosdomainText(x, string(result))

func ArithmosDomain.UnmarshalText(x, text) err
  props C10
  requires x != nil
  modifies x
  ensures exactly the keywords in any case: err == nil <==> isarithmosdomainText(strings.ToLower(string(text)))
  ensures that one: err == nil ==> arithmosdomainText(*x, strings.ToLower(string(text)))
  ensures untouched on error: err != nil ==> *x == old(*x)

lemma ArithmosDomainRoundTrip(k ArithmosDomain, x *ArithmosDomain)
  props C10
  requires okarithmosdomain(k) && x != nil
  call (bs, err) = ArithmosDomain.MarshalText(k)
  call err2 = ArithmosDomain.UnmarshalText(x, bs)
  ensures equal: err == nil && err2 == nil && *x == k

package rstype

spec rskindText(k Kind, s string) bool = k == KindEmpty && s == "empty" || k == KindArithmos && s == "arithmos" || k == KindEnum && s == "enum"
spec isrskindText(s string) bool = s == "empty" || s == "arithmos" || s == "enum"
spec okrskind(k Kind) bool = k == KindEmpty || k == KindArithmos || k == KindEnum

func Kind.String(x) result
  props C10
  ensures keyword: okrskind(x) ==> rskindText(x, result)

func ParseKind(name) (result, err)
  props C10
  ensures exactly the keywords in any case: err == nil <==> isrskindText(strings.ToLower(name))
  ensures that one: err == nil ==> rskindText(result, strings.ToLower(name))

func Kind.MarshalText(x) (result, err)
  props C10
  ensures no error: err == nil
  ensures keyword: okrskind(x) ==> rskindText(x, string(result))

func Kind.UnmarshalText(x, text) err
  props C10
  requires x != nil
  modifies x
  ensures exactly the keywords in any case: err == nil <==> isrskindText(strings.ToLower(string(text)))
  ensures that one: err == nil ==> rskindText(*x, strings.ToLower(string(text)))
  ensures untouched on error: err != nil ==> *x == old(*x)

lemma KindRoundTrip(k Kind, x *Kind)
  props C10
  requires okrskind(k) && x != nil
  call (bs, err) = Kind.MarshalText(k)
  call err2 = Kind.UnmarshalText(x, bs)
  ensures equal: err == nil && err2 == nil && *x == k

package gen/config/cpp

spec variantText(k Variant, s string) bool = k == VariantAnimate && s == "animate" || k == VariantRos && s == "ros"
spec isvariantText(s string) bool = s == "animate" || s == "ros"
spec okvariant(k Variant) bool = k == VariantAnimate || k == VariantRos

func Variant.String(x) result
  props C10
  ensures keyword: okvariant(x) ==> variantText(x, result)

func ParseVariant(name) (result, err)
  props C10
  ensures exactly the keywords in any case: err == nil <==> isvariantText(strings.ToLower(name))
  ensures that one: err == nil ==> variantText(result, strings.ToLower(name))

func Variant.MarshalText(x) (result, err)
  props C10
  ensures no error: err == nil
  ensures keyword: okvariant(x) ==> variantText(x, string(result))

func Variant.UnmarshalText(x, text) err
  props C10
  requires x != nil
  modifies x
  ensures exactly the keywords in any case: err == nil <==> isvariantText(strings.ToLower(string(text)))
  ensures that one: err == nil ==> variantText(*x, strings.ToLower(string(text)))
  ensures untouched on error: err != nil ==> *x == old(*x)

lemma VariantRoundTrip(k Variant, x *Variant)
  props C10
  requires okvariant(k) && x != nil
  call (bs, err) = Variant.MarshalText(k)
  call err2 = Variant.UnmarshalText(x, bs)
  ensures equal: err == nil && err2 == nil && *x == k

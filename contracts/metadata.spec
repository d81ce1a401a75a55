// C15: package metadata

package gen/config/catkin

spec orDefault(s string, d string) string = ite(s == "", d, s)
spec named(s string, name string) string = strings.ReplaceAll(s, "${NAME}", name)

func autofillOne(input, def) result
  props C15
  ensures default only if empty: result == orDefault(input, def)

func Package.Autofill(p)
  props C15
  requires p != nil
  modifies p
  ensures format: p.Format == 2
  ensures name: p.Name == orDefault(old(p.Name), "${NAME}")
  ensures version: p.Version == orDefault(old(p.Version), "0.1.0")
  ensures description: p.Description == orDefault(old(p.Description), "Package for ${NAME}")
  ensures maintainer: p.Maintainer.Name == orDefault(old(p.Maintainer.Name), "${NAME} Maintainers") && p.Maintainer.Email == orDefault(old(p.Maintainer.Email), "email@example.com")
  ensures licence: p.License == orDefault(old(p.License), "Proprietary")
  ensures nothing is left empty: p.Name != "" && p.Version != "" && p.Description != "" && p.Maintainer.Name != "" && p.Maintainer.Email != "" && p.License != ""
  ensures dependencies untouched: same(p.Depends, old(p.Depends)) && same(p.BuildtoolDepends, old(p.BuildtoolDepends))
  ensures element name untouched: p.XMLName == old(p.XMLName)

lemma AutofillTwice(p *Package)
  props C15
  requires p != nil
  requires p.Format == 2 && p.Name != "" && p.Version != "" && p.Description != "" && p.Maintainer.Name != "" && p.Maintainer.Email != "" && p.License != ""
  call () = Package.Autofill(p)
  ensures changes nothing: *p == old(*p)

func expandOne(template, name) result
  props C15
  ensures every occurrence: result == named(template, name)

func Package.Expand(p, name)
  props C15
  requires p != nil
  modifies p
  ensures name: p.Name == named(old(p.Name), name)
  ensures description: p.Description == named(old(p.Description), name)
  ensures maintainer: p.Maintainer.Name == named(old(p.Maintainer.Name), name) && p.Maintainer.Email == named(old(p.Maintainer.Email), name)
  ensures licence: p.License == named(old(p.License), name)
  ensures nothing else: p.Format == old(p.Format) && p.Version == old(p.Version) && same(p.Depends, old(p.Depends)) && same(p.BuildtoolDepends, old(p.BuildtoolDepends)) && p.XMLName == old(p.XMLName)

package gen/catkin

// The metadata for one test is the configured one, expanded for that test.
spec expanded(p catkincfg.Package, q catkincfg.Package, name string) bool = p.Name == named(q.Name, name) && p.Description == named(q.Description, name) && p.Maintainer.Name == named(q.Maintainer.Name, name) && p.Maintainer.Email == named(q.Maintainer.Email, name) && p.License == named(q.License, name) && p.Format == q.Format && p.Version == q.Version && same(p.Depends, q.Depends) && same(p.BuildtoolDepends, q.BuildtoolDepends)

func OnSuite.generateTest(o, dirs, name) err
  props C15 C16
  requires o != nil && o.parent != nil && o.parent.config.Package != nil && o.parent.cmakeGen != nil
  at generatePackageXML(dir, pkg) the configured metadata for this test: dir == dirs.Output && expanded(pkg, *o.parent.config.Package, name)
  ensures written: err == nil ==> called(generatePackageXML)

import json
full=lambda what: {"full":True,"note":f"Every obligation of {what} is discharged from the current source, for all inputs and iterations; machine integers are mathematical, termination is assumed, library functions are modelled as DESIGN.md lists. A bounded run of the real code looks for a failing input."}
part=lambda proved,bounded: {"full":False,"note":f"Proved for all inputs from the current source: {proved}. Bounded (executed against an independent reference, not proved): {bounded}."}
d={
"C01":full("trace.Read, newReader, parseRow (with tryParseName and selectEvent inlined) and Event.UnmarshalText with what it calls (encoding/csv itself is assumed)"),
"C02":full("trace.Name, insertName and synthesiseName"),
"C03":full("Forbidden.Expand and ExpandAll (with TryOverMapValues)"),
"C04":full("Collapse, CollapseAll (with TryOverMapValues), OneNext, Root and Node, and the lemma that an expansion collapses to its trace"),
"C05":full("validate.Full (with Walk inlined), FullSuite (with TryOverMapValues), Root, Node and the rules for each kind of node"),
"C06":full("Walk (for every visitor, with the pre-order as a recursive definition) and MarkAll"),
"C07":full("Builder.Build, BuildMany and BuildSuite with buildState, ensureNodeID, addTransition and AddToSets, for valid trees that share no nodes"),
"C08":full("Verdict and its queries, buildState, Builder.Build, BuildMany and BuildSuite (each state's verdict and each machine's tests)"),
"C09":full("the types of values, rstype.Unify with its lattice laws as lemmas, inferEventType, unifyTypes, Builder.Build, BuildMany and BuildSuite"),
"C10":full("the text forms of kinds, channels, types, values, events and variants, with round-trip lemmas"),
"C11":full("the Equals functions of values, channels, events and traces, and Trace.IsPrefixOf"),
"C12":full("Stm.TransitionSets, AddToAggregateSets, the functions that make the transition context and the two NewContext functions, for machines with distinct state names and distinct channels in each state (which is what Builder.Build is proved to make)"),
"C14":full("Config.ChannelMap, Config.Process and ChannelType.HasOverride"),
"C15":full("OnSuite.generateTest, Package.Autofill and Package.Expand"),
"C17":full("the naming functions in gen/cpp and strmanip, StdType, Value and the literal functions"),
"C18":part("Trace.Equals","grouping the failures"),
"C19":part("the command-line functions: arguments, error handling, the directory that is cleaned","running the tools"),
"C21":full("the nine functions in internal/structure that make up the property"),
}
json.dump(d,open('/verif/levels.json','w'),indent=1); open('/verif/levels.json','a').write('\n')

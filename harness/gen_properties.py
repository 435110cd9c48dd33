import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['ndg/xacml/'+f for f in files],mechanism=[dict(name=n,where='ndg/xacml/'+w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where='ndg/xacml/'+w) for n,m,w in state]
    P.append(d)

p('C01','Rule combining follows XACML 2.0 Appendix C for every rule sequence',
 'For a policy using the deny-overrides, permit-overrides or first-applicable rule-combining algorithm, the policy decision is exactly the XACML 2.0 Appendix C function of the ordered sequence of its rules\' outcomes (Permit, Deny, NotApplicable, Indeterminate) and effects, including the potential-deny / potential-permit treatment of Indeterminate rules and NotApplicable for no rules. Under deny-overrides no Permit is ever given when a rule denies or an erroring rule could have denied; under permit-overrides dually for Deny; under first-applicable only the first rule that is not NotApplicable counts.',
 ['inputs','configurations'],'every sequence of rules (any length, any mix of effects and outcomes) and each implemented rule-combining algorithm',
 'The tests run a handful of fixed policies, mostly with two or three rules; they never combine Indeterminate rules of both effects at different positions.',
 ['core/rule_combining_alg.py','core/policy.py'],
 [('Deny/Permit/FirstApplicable RuleCombiningAlg.evaluate','core/rule_combining_alg.py'),('Policy.evaluateCombiningAlgorithm','core/policy.py')],
 ['PDP.evaluate decision'])
p('C02','Policy combining follows XACML 2.0 Appendix C for every list of children',
 'For a policy set using the deny-overrides, permit-overrides or first-applicable policy-combining algorithm, the decision is exactly the XACML 2.0 Appendix C function of the ordered sequence of its child policies\' and policy sets\' decisions: deny-overrides yields Deny if any child is Deny or Indeterminate, else Permit if any permits, else NotApplicable; permit-overrides yields Permit if any child permits, else Deny if any denies, else Indeterminate if any is Indeterminate, else NotApplicable; first-applicable yields the first decision that is not NotApplicable. This holds for children that are policies, nested policy sets, or resolved references alike.',
 ['inputs','configurations'],'every sequence of children with any decisions, and each implemented policy-combining algorithm',
 'The tests have one policy set document per algorithm and a few requests; no test reaches most combinations, in particular Indeterminate children.',
 ['core/policy_combining_alg.py','core/policyset.py'],
 [('Deny/Permit/FirstApplicable PolicyCombiningAlg.evaluate','core/policy_combining_alg.py'),('PolicySet.evaluateCombiningAlgorithm','core/policyset.py')],
 ['PDP.evaluate decision'])
p('C03','A rule evaluates by the XACML target / condition / effect table',
 'A rule gives its Effect exactly when its target matches (or is absent) and its condition is absent or evaluates to the boolean true; it gives NotApplicable when the target does not match or the condition is false. It gives Indeterminate when the target or the condition raises an error or the condition\'s value is not a boolean; it never gives the other effect.',
 ['inputs'],'every rule (effect, target, condition expression) and request',
 'The tests evaluate about ten hand-written conditions on fixed requests; no test uses a condition that yields a non-boolean, and few make the target or condition fail.',
 ['core/rule.py','core/condition.py','core/apply.py','core/expression.py'],
 [('Rule.evaluate','core/rule.py'),('Condition.evaluate','core/condition.py'),('Apply.evaluate','core/apply.py')],
 ['PDP.evaluate decision','Rule.evaluate decision'])
p('C04','Targets gate every level of a policy tree, and decisions compose upwards',
 'At every level of a tree of policy sets, policies and rules, an element whose target does not match the request is NotApplicable whatever it contains, an element whose target cannot be evaluated is Indeterminate, and otherwise its decision is the combination of its children\'s decisions by its own combining algorithm. The decision for a whole tree is therefore the compositional XACML evaluation of that tree, for any nesting depth and any mix of algorithms.',
 ['inputs','configurations'],'every policy tree (depth, width, algorithms, targets) and every request',
 'Unit tests use trees of at most two levels with a fixed layout; the property quantifies over all trees and all positions of a non-matching or failing target.',
 ['core/policybase.py','core/policy.py','core/policyset.py','core/rule.py','core/context/pdp.py'],
 [('PolicyBase.evaluate','core/policybase.py'),('PDP.evaluate','core/context/pdp.py')],['PDP.evaluate decision'])
p('C05','Target matching is AND of sections, OR of alternatives, AND of matches',
 'A target matches a request exactly when, for each of its subjects, resources, actions and environments sections that is present and non-empty, at least one listed alternative has all of its match elements true; a match element is true exactly when its match function, applied to the policy\'s literal value first and a request value second, is true for at least one value in the bag its designator or selector yields (so never for an empty bag). An error in evaluating a match is never taken as a match or as a definite non-match of the target, unless the other parts of the target already settle the result by the XACML match tables; then either the settled result or an error is reported.',
 ['inputs'],'every target structure and every request, including bags with many values and failing matches',
 'Existing tests use targets with one or two alternatives and one match each and check a few request attribute sets.',
 ['core/target.py','core/targetchild.py','core/match.py'] if False else ['core/target.py','core/match.py','core/__init__.py'],
 [('Target.match','core/target.py'),('MatchBase.evaluate','core/match.py')],['Target.match result','PDP.evaluate decision'])
p('C06','Attribute designators return exactly the matching request values',
 'An attribute designator evaluates to the bag, in request order and with multiplicity, of exactly those values in its own category of the request (all subjects, all resources, the action, or the environment) whose attribute has the designator\'s attribute id and data type and, when the designator names an issuer, that issuer. Values of another category, id, type or issuer never leak in; an empty bag is an error if and only if MustBePresent is true.',
 ['inputs'],'every request content and every designator (category, id, data type, issuer, MustBePresent)',
 'The tests retrieve attributes from one canned request; issuers, several subjects or resources and near-miss attributes are hardly exercised.',
 ['core/attributedesignator.py','core/attribute.py','core/context/request.py','core/context/subject.py','core/context/resource.py'],
 [('*AttributeDesignator.evaluate','core/attributedesignator.py')],['designator.evaluate(request)','PDP.evaluate decision'])
p('C07','External attribute lookup extends subject attributes and fails safely',
 'When the request carries a context handler, evaluating a subject attribute designator asks that handler with that request and designator, and the values returned join the bag (those already in it are not duplicated) exactly as if the request had held them; no handler, an empty answer or None adds nothing. Resource, action and environment designators do not consult it, MustBePresent is judged after the lookup, and a handler that raises or returns a value of another type makes the enclosing evaluation Indeterminate, never Permit or NotApplicable by default and never an exception out of the decision point.',
 ['inputs','fault_sequences','histories'],'every request, designator and sequence of handler answers, including failures and wrong types at any call',
 'One test file uses a PIP that always succeeds; failures, duplicates, several subjects and None answers are not covered.',
 ['core/attributedesignator.py','core/context/handler.py','core/context/handlerinterface.py','core/context/request.py'],
 [('SubjectAttributeDesignator.evaluate PIP query','core/attributedesignator.py')],['PDP.evaluate decision','calls seen by the handler'])
p('C08','Every evaluation returns exactly one valid result, and errors never grant access',
 'For any policy that loaded and any request object, the decision point returns a response holding exactly one result whose decision is Permit, Deny, NotApplicable or Indeterminate, and no exception escapes it, wherever in the policy, the request, a custom function or the context handler an error occurs. An error changes the decision only as the XACML combining rules say Indeterminate does: a policy whose only applicable content fails is Indeterminate, never Permit.',
 ['inputs','fault_sequences'],'every policy and request, with an error injected at any evaluation point',
 'Tests trigger one or two error paths; fault placement over all evaluation points and nestings is not sampled.',
 ['core/policybase.py','core/rule.py','core/context/pdp.py','core/context/response.py','core/context/result.py'],
 [('catch-all in PolicyBase.evaluate','core/policybase.py'),('catch-all in Rule.evaluate','core/rule.py'),('Result.createInitialised','core/context/result.py')],['PDP.evaluate response'])
p('C09','Standard functions compute their XACML meaning and reject wrong types',
 'Each supported standard function - type-equal, string/URI/name regexp-match (pattern first, matched from the start of the value), x500Name/rfc822Name match, and, not, type-bag, type-one-and-only, type-at-least-one-member-of, string-concatenate and url-string-concatenate - returns the value its XACML definition gives for all arguments of the right number and types. A wrong number of arguments, an argument of another data type, a bag where a value is expected (or the reverse), or a bag of the wrong size for one-and-only is an error, never a result.',
 ['inputs'],'every supported function identifier and every tuple of arguments (values of all data types, bags, booleans)',
 'Function tests call a few functions with one or two argument tuples each, nearly all of string type.',
 ['core/functions/v1/equal.py','core/functions/v1/match.py','core/functions/v1/and.py','core/functions/v1/not.py','core/functions/v1/bag.py','core/functions/v1/one_and_only.py','core/functions/v1/at_least_one_member_of.py','core/functions/v1/regexp_match.py','core/functions/v2/regexp_match.py','core/functions/v2/concatenate.py','core/functions/__init__.py'],
 [('<Function>.evaluate','core/functions/v1, core/functions/v2'),('FunctionClassFactoryBase.loadFunction','core/functions/__init__.py')],['functionMap[urn]().evaluate(...)','Apply in a condition'])
p('C10','Function registry: stable resolution, standard functions cannot be replaced',
 'After any history of lookups and custom registrations, a function identifier resolves to the same implementation every time, namely the one for exactly that family and data type, or the one most recently registered under that custom identifier. A registration through load_custom_function can never replace or shadow a standard XACML identifier, is refused unless it supplies a function class, and a refused registration changes nothing; identifiers that are not implemented are reported as unsupported, both on lookup and when a policy that uses them is loaded.',
 ['histories'],'every sequence of registrations, lookups and policy loads over standard, unimplemented, custom and unknown identifiers',
 'Tests register one custom function; the interleavings of registration, failed registration, lookup and caching are not explored.',
 ['core/functions/__init__.py','core/apply.py','core/match.py','utils/__init__.py','utils/factory.py'],
 [('FunctionMap.loadFunction / load_custom_function','core/functions/__init__.py'),('setFunctionFromMap','core/apply.py')],['functionMap lookups','policy load result'],
 [('functionMap','process-wide registry from identifier to function class','core/functions/__init__.py')])
p('C11','Policy references resolve to the policy with the declared id, or loading fails',
 'When a policy set refers to a policy or policy set by id, the tree that is loaded contains at that position the policy (or policy set, according to the kind of reference) whose declared id equals the reference: a definition parsed earlier anywhere in the same document tree, or one fetched through the finder given to the PDP from the reference taken as a URL (relative to the finder\'s base path). An unresolvable or wrongly-kinded reference, a fetched document that does not define that id, a duplicate id within one load, or a reference cycle makes loading fail with an error and never yields a PDP with a missing or substituted policy; separate loads, overlapping ones too, each with its own finder, do not affect each other.',
 ['inputs','configurations','histories'],'every set of documents (nesting, reference graph, ids, missing files), each finder, and every sequence of loads',
 'Tests load three reference layouts that succeed; duplicates, mismatches, wrong kinds, cycles and repeated loads are not tested.',
 ['finder/policyfinderbase.py','finder/localpolicyfinder.py','finder/urlpolicyfinder.py','finder/defaultfinder.py','parsers/etree/policysetreader.py','utils/urlfetcher.py','core/policybase.py'],
 [('PolicyFinderBase.addPolicyReference / findPolicyById','finder/policyfinderbase.py'),('PolicySetReader reference handling','parsers/etree/policysetreader.py')],['PDP.fromPolicySource result','structure and decisions of the loaded policy'])
p('C12','Parsing a policy document preserves its content and rejects malformed documents',
 'Parsing a policy or policy set document yields an object tree carrying exactly the document\'s content: ids, effects, algorithms, descriptions, defaults, versions, targets with all their alternatives and matches in order, conditions with their expression trees and all designator and selector attributes. A document that lacks a required XML attribute, or the value or source that a match or expression needs, contains an unrecognised element among the children of a policy, policy set, target or target section, rule, condition, match or apply, gives a value of an unknown data type, names an unknown function, effect or combining algorithm, gives the same id to two rules of one policy, or is not XACML at all is rejected with an exception at load time and never accepted in part.',
 ['inputs'],'every abstract policy document, serialised in any equivalent XML form, and every single-point mutation that makes it invalid',
 'Tests parse a dozen example files and compare a few fields; there are almost no malformed inputs.',
 ['parsers/etree/policyreader.py','parsers/etree/policysetreader.py','parsers/etree/rulereader.py','parsers/etree/targetreader.py','parsers/etree/targetchildreader.py','parsers/etree/matchreader.py','parsers/etree/conditionreader.py','parsers/etree/applyreader.py','parsers/etree/attributevaluereader.py','parsers/etree/attributedesignatorreader.py','parsers/etree/attributeselectorreader.py','parsers/etree/policydefaultsreader.py','parsers/etree/expressionreader.py','parsers/etree/factory.py'],
 [('ETree readers','parsers/etree/*reader.py')],['Policy/PolicySet object tree','exception at load'])
p('C13','A decision depends only on policy and request, not on history or concurrency',
 'Evaluating a request against a loaded policy gives the decision determined by that policy and that request\'s current content alone: earlier or concurrent evaluations of other requests, by the same or other decision points in the process, never change it, and evaluating never modifies the policy or the request. Each evaluation returns its own response, so changing one returned response affects no other decision; a request modified between two evaluations is judged on its new content.',
 ['schedules','histories'],'every history of evaluations, request edits and response edits, and every interleaving of concurrent evaluations sharing decision points and requests',
 'The tests are single-threaded and evaluate fresh objects; none interleaves evaluations or repeats them after edits.',
 ['core/context/pdp.py','core/policybase.py','core/rule.py','core/target.py','core/match.py','core/apply.py','core/attributedesignator.py','core/context/result.py','core/functions/v1/regexp_match.py'],
 [('stateless evaluation methods','core/*.py'),('shared decision constants','core/context/result.py'),('shared regexp cache','core/functions/v1/regexp_match.py')],['PDP.evaluate results per thread and step'])
p('C14','Request and response documents round-trip through XML',
 'Serialising a request context to XML and parsing it back gives an equal request - the same subjects, resources, action and environment with the same attributes (ids, data types, issuers) and the same ordered values - and parsing a request document gives the content the document states. Serialising a response and parsing it back gives the same results: decision, status code and message, resource id and obligations; the serialised form contains each stated item exactly once and nothing else, and a document in which an attribute lacks its id, data type or values, or a result lacks its decision, is rejected.',
 ['inputs'],'every request and response the context classes can hold with string-valued attributes, and documents with required parts removed',
 'Tests round-trip one request and one response and only print the response XML.',
 ['parsers/etree/context.py','parsers/etree/__init__.py','core/context/request.py','core/context/response.py','core/context/result.py','core/attribute.py'],
 [('RequestElementTree / ResponseElementTree toXML and fromXML','parsers/etree/context.py')],['XML produced','objects parsed'])
p('C15','Attribute selectors read exactly the selected request-document values',
 'An attribute selector evaluates to the bag, of the selector\'s data type, of the text of every element its path selects in the request document attached to the request, and selects nothing else. An empty selection is an error if and only if MustBePresent is true, and a missing selector document or unusable data type is an error, so that matches and conditions built on selectors decide exactly as they would on the same bag from a designator.',
 ['inputs'],'every request document, every path in the supported location-path subset and every selector setting',
 'Tests use one request document and a few paths, and half of them cannot run on lxml.',
 ['core/attributeselector.py','utils/xpath_selector.py','core/match.py','parsers/etree/attributeselectorreader.py'],
 [('AttributeSelector.evaluate','core/attributeselector.py'),('EtreeXPathSelector.selectText','utils/xpath_selector.py')],['selector.evaluate(request)','PDP.evaluate decision'])
p('C16','Typed containers only ever hold vetted content',
 'After any sequence of operations, a typed list (attribute bags, rules, policies, results) contains exactly the elements successfully added and not removed, in list order, all of its element type, and an operation given a wrongly typed element raises and leaves it unchanged; no element is silently dropped, whatever iterable supplies it. The vetted and restricted dictionaries likewise hold only keys and values their filters admit and answer lookups (including defaults) like a dictionary, and a unique list built by its constructor, append, extend and += never holds duplicates.',
 ['histories'],'every sequence of container operations with well-typed and ill-typed operands supplied as lists, tuples, generators or other typed lists',
 'Tests add a few elements; slices, generators, in-place operators and mixed operands are not covered.',
 ['utils/__init__.py'],
 [('TypedList, UniqList, RestrictedKeyNamesDict, VettedDict','utils/__init__.py')],['container contents after each operation'],
 [('list / dict contents','the elements held','utils/__init__.py')])
p('C17','Decision, effect and status values stay in vocabulary; constants are constant',
 'A decision, rule effect or status code object holds only a value of its XACML vocabulary at all times: an attempt to set anything else raises and changes nothing, and comparison with a value holds exactly when the values are equal and raises for values outside the vocabulary. The shared constants (the Permit, Deny, NotApplicable and Indeterminate decisions, and the Permit and Deny effects) can never be changed through any object that refers to them, including a returned response; a result\'s decision, a rule\'s effect and a status\'s code accept only objects of those kinds, and a copied decision or effect keeps its value.',
 ['histories'],'every sequence of constructions, assignments and comparisons on decision, effect and status objects',
 'Tests construct each value once; no test attempts to modify the shared constants or continues after a refused assignment.',
 ['core/context/result.py','core/rule.py','core/obligation.py'],
 [('Decision / Effect value setters and read-only subclasses','core/context/result.py, core/rule.py')],['values read back after each operation'])
p('C18','Attribute values are type-safe; adding data types disturbs no others',
 'An attribute value object only ever holds a value of its data type\'s native type, refusing others unchanged, and comparing it with an attribute value of another type raises instead of giving an answer. Registering a custom data type (value class and document reader) makes documents and designators using it work and leaves every other type as it was; registering under an identifier already taken changes nothing unless overwriting is requested, and only value classes are accepted.',
 ['histories','inputs'],'every data type and native value, and every sequence of data-type registrations, including refused ones, and uses',
 'One test registers one custom type; refused, repeated and overwriting registrations and cross-type comparisons are not explored.',
 ['core/attributevalue.py','parsers/etree/attributevaluereader.py','core/attribute.py'],
 [('AttributeValue value setter and equality','core/attributevalue.py'),('AttributeValueClassFactory.addClass','core/attributevalue.py'),('DataTypeReaderClassFactory.addReader','parsers/etree/attributevaluereader.py')],['values, factories and policy decisions after each step'])
p('C19','The two XML back ends give the same behaviour',
 'With lxml, with the standard library\'s ElementTree, and with lxml installed but switched off, the same policy documents load or are rejected, load to the same object content, the same requests and responses serialise to equivalent documents, and the same decisions result; comments, processing instructions, CDATA sections and character references never change what is read. (XPath beyond the subset the standard library implements is excepted: it needs lxml.)',
 ['configurations','inputs'],'every policy document, request and context document, under both back ends',
 'Each back end runs the suite separately, so nothing compares their results, and code specific to one back end is untested on generated documents.',
 ['__init__.py','parsers/etree/__init__.py','parsers/etree/reader.py','utils/etree.py','utils/xpath_selector.py','parsers/etree/context.py'],
 [('Config.use_lxml switch and importElementTree','__init__.py'),('QName and element helpers','parsers/etree/__init__.py')],['load results, object content, documents and decisions under both interpreters'])
p('C20','Policy objects edited in place decide as newly loaded ones would',
 'Policy objects can be built and edited in place through their properties and lists: an edit of the right kind (combining algorithm, effect, target, condition, match or function identifier, literal, designator or selector setting, or a rule, policy, alternative, match or argument added, replaced, moved or removed) takes effect on the very next evaluation and changes nothing else, so the policy decides exactly as a newly loaded policy with that content; a match holds either a designator or a selector, the last one set. An edit with a value of the wrong kind, or one naming an unknown or unimplemented function or combining algorithm, raises and changes nothing, neither what the object shows nor how it decides. A deep copy of a policy or of a decision point says and decides the same and is independent of the original.',
 ['histories','inputs'],'every history of evaluations, edits and copies of a policy tree held by a decision point, and every request',
 'Tests set a few properties of freshly made objects; none edits a policy that is in use, and the number of edit sequences and places is unbounded.',
 ['core/policy.py','core/policyset.py','core/rule.py','core/target.py','core/match.py','core/apply.py','core/condition.py','core/attributedesignator.py','core/attributeselector.py','core/attributevalue.py','core/context/pdp.py'],
 [('property setters of the policy classes','core/policy.py'),('match and function identifiers','core/match.py')],['decisions and object content after each edit'])
p('C21','Request and response objects hold what was put in; copies are independent',
 'Requests, responses and their parts (subjects, resources, action, environment, attributes, attribute values; results, decisions, statuses, status codes, obligations; and the context handler, decision point and selector attached to them) start empty and hold exactly what was put in: a part or text of the right kind, assigned to a property or put into a list, is what is read back at that place and nowhere else - objects made separately share nothing - and one of a wrong kind raises and changes nothing. A deep copy of any of them, and an unpickled pickle of one made of context parts, holds the same as the original, part by part (a part occurring twice occurs twice), and is independent of it: editing one never changes the other.',
 ['histories'],'every history of constructions, assignments, list operations (well and ill typed) and copies on request and response objects that may share parts',
 'Tests set each property of a fresh object once and pickle one request; none refuses, shares parts, edits a copy or checks the objects it did not touch.',
 ['core/__init__.py','core/attribute.py','core/attributevalue.py','core/obligation.py','core/context/__init__.py','core/context/request.py','core/context/response.py','core/context/result.py','core/context/subject.py','core/context/resource.py','core/context/action.py','core/context/environment.py','core/context/handler.py','core/context/pdp.py','utils/__init__.py'],
 [('property setters of the context classes','core/context/*.py'),('__getstate__ / __setstate__','core/__init__.py, core/context/*.py'),('TypedList','utils/__init__.py')],['properties and lists of every object after each operation'])
p('C22','Plugged-in algorithms, functions and readers take effect there and only there',
 'Combining algorithm factories (of policies and policy sets), function maps (of Apply and match objects) and element readers can be replaced. A policy uses the algorithm that its own factory gave for the identifier when that was set; an Apply or a match uses the function that its own map gave when its identifier was set (unless told not to follow it), or that a given map gave when it was told to fetch one. Replacing a factory or map changes nothing until then. Each element of a document is read once, by the reader registered last for its kind. Whatever gives nothing usable (unknown, unimplemented, not a class, of another kind, failing) and whatever is of the wrong kind is refused and changes nothing; no other object, no object made later and no document read later is affected by what was plugged into one object.',
 ['histories'],'every history of replacements, identifiers set, refusals and evaluations over several objects, and every document',
 'Tests plug in one custom algorithm or function at a time; none replaces one in use, mixes objects with different ones, or checks what the others do.',
 ['core/policy.py','core/policyset.py','core/rule_combining_alg.py','core/policy_combining_alg.py','core/apply.py','core/match.py','core/functions/__init__.py','parsers/etree/factory.py','parsers/etree/*.py'],
 [('ruleCombiningAlgFactory / policyCombiningAlgFactory and the identifier setters','core/policy.py, core/policyset.py'),('functionMap, loadFunctionFromId, setFunctionFromMap','core/apply.py, core/match.py'),('ReaderFactory.addReader','parsers/etree/factory.py')],['what is in force in every object, its decisions, and the readers called, after each step'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))

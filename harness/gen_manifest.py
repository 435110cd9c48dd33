"""Writes MANIFEST.json and the fixed list of known_findings.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {
 'C01': 'TLC checks the step-wise combiner against Appendix C for every outcome sequence up to length 4 (quick) or 5 (thorough); each is replayed as a real policy, plus random long ones; exhaustive within those bounds, sampled beyond.',
 'C02': 'As C01 for child decisions, with children that are policies, sets and resolved references.',
 'C03': 'Every target/condition/effect combination and a table of unusual condition values, replayed on real rules; random expressions judged by the same operators.',
 'C04': 'Small-step PDP machine over all trees of the bounded shapes; replayed (sampled in quick), plus random, deep and wide trees.',
 'C05': 'Target machine over all comparison outcomes in bounded bags, alternatives and sections; replayed, plus random targets.',
 'C06': 'Retrieval machine over all small attribute holders; replayed, plus random requests; bag order is compared.',
 'C07': 'Retrieval machine with a context handler answering, lying or failing; replayed, plus random policies and handlers.',
 'C08': 'Fault injection at every evaluation point of generated policies and trees; judged by the set-valued semantics.',
 'C09': 'Function laws checked by TLC over a small universe; every function called over argument tuples and judged by the specification. Regular expressions are limited to a generated subset.',
 'C10': 'Registry machine over every history of registrations and lookups in bounded alphabets; replayed in forked processes, plus random histories and policy loads.',
 'C11': 'Loader machine over bounded document graphs; replayed through both finders, plus random graphs, concurrent loads and loads nested inside a finder or interleaved line by line.',
 'C12': 'Every single edit of base documents that have every kind of element, enumerated by TLC, plus random valid, edited and malformed documents, written in equivalent XML forms and read through every entry point; where the library and the schema are both silent no claim is made.',
 'C13': 'Session machine over every bounded history of evaluations, edits and overlapped evaluations, each replayed under several schedules (gated, line- and opcode-level switching, free-running threads), plus random longer histories; schedules beyond those are sampled.',
 'C14': 'Every single edit of base request and response documents and every response in small bounds, enumerated by TLC; serialised, parsed and parsed again in both back ends and judged by the specification, plus random requests, responses and documents; where the property is silent no claim is made.',
 'C15': 'All bounded documents and paths; replayed in both XML back ends, plus random ones.',
 'C16': 'Every operation history up to depth 2 (lists) or 3 (thorough) over bounded operands, replayed on lists of test classes and on the lists the policy and context classes expose; plus random longer histories.',
 'C17': 'Every operation history up to depth 2 on the constants and on objects made, copied or obtained from evaluations, responses and policies (depth 3 by class in thorough), replayed; plus random longer histories.',
 'C18': 'Every history of registrations and uses up to depth 3 (4 in thorough) over bounded identifiers, classes and readers, each replayed in a forked process, every data type against every kind of native value and every other type, plus random longer histories.',
 'C19': 'Every element content of up to 4 (5 in thorough) text, comment, instruction, CDATA, reference and child-element items: TLC checks that both kinds of tree read the same, and the contents are read by the real code at 14 places of policy and context documents; single edits of policy documents enumerated by TLC and random policy, request, response and malformed documents are compared across three configurations, two of them in opposite order.',
 'C20': 'Every single edit, and every pair of edits, of a base policy set that holds every kind of element (combining algorithms, effects, targets, conditions, identifiers, literals, designators, selectors, lists; right and wrong values) with its decisions: TLC checks that an edit changes exactly its place and that a refused one changes nothing; a sample is replayed on objects held by a decision point and, with random longer histories on random trees, the content dumps and decisions after each edit are judged by TLC against the specification of loading and evaluating that content.',
 'C21': 'Heap machine of request and response objects: every operation (assignments and list operations, right and wrong, and copies) on a heap of 22 objects that share parts, and pairs of them; TLC checks typing, the frame (one place changes at most) and that copies say the same and share nothing. Replayed on real objects, with random histories of up to 30 operations; after each the content of every object is judged by TLC.',
 'C22': 'State machine of what is plugged into three policies, three function users and the reader registry: every history of two (TLC checks three or four) replacements, identifiers, fetches and refusals on pairs of slots; TLC checks soundness, the frame and that plugging alone changes nothing in force. Replayed in forked processes on real objects, with random histories over all slots and generated documents; after each step every object and the calls of the readers are judged by TLC.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
    for p in props:
        i = p['id']
        if i not in NOTE:
            m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
            continue
        m['checks'].append({
            'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ specification model-checked with TLC; its behaviours replayed into, and traces recorded '
                         'from, the real code validated against it by TLC',
            'level': 'model_checking',
            'level_note': NOTE[i] + ' Trusts TLC, the realiser (abstract terms to documents and objects) and the '
                                    'specification of XACML it states.'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

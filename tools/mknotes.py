"""Writes notes.json: technique, level and note of each check."""
import json
import os
T = 'contracts on the real functions, discharged by z3 from the current source'
B = '; bounded stand-in on generated inputs with an independent oracle'
N = {
'C01': 'Proof for all value streams, blockings and request sequences of '
'read_floats, read_floatrec, read_headerrec of both file classes (class '
'invariant over the position in the stream). Trusted: file objects, '
'struct, float() of a field, the file layout; termination not proved.',
'C02': 'Proof that skip_record, skip_type1_rec, the text and prologue skips '
'and read_record dispatch end at the next header, for every record layout; '
'the readers enter by contract (C03). Trusted: as C01, layout of prologue '
'records.',
'C03': 'Proof for every supported record type and both table descriptions '
'that each column holds the field the record definition gives it, for '
'symbolic field values and any number of records (loop invariant); the '
'infile, buffer and get_table contracts are proved under C01, C02, C05.',
'C04': 'Proof for every type with variable-length data that the stored '
'range delimits exactly the values of the record, for symbolic lengths.',
'C05': 'Proof of the class invariant of the two buffer classes for every '
'buffer size and every history of add and write, and that every reader '
'writes its buffers when it ends.',
'C06': 'Proof that every variable of the parser module that an executed '
'function could read is in its initial state when parse_file starts a file, '
'whatever state earlier conversions left (opaque values); static frame check '
'that no other data can be kept. Trusted: import-time tables, PyTables.',
'C07': 'Proof for hierarchies of any number of rows (symbolic table) of the '
'files read, their order, groups, attributes and reports of missing files; '
'the switches set by IDENT and HIERARCH proved on their readers. Trusted: '
'os.path, PyTables, layout of the hierarchy table as Sesam writes it.',
'C08': 'Proof over symbolic prefixes, names and sequences of any length of '
'output names, modes, group names and rejections; accepted names decided as '
'regular languages. Trusted: os.path, re, PyTables append mode.',
'C09': 'Proof that every operation of File and of the data classes raises '
'ClosedFileError in the closed state before it looks at its arguments '
'(opaque arguments), and of the effects of close and close_all_files.',
'C10': 'Proof for any number and mix of groups (symbolic tree) that the '
'mapping methods agree on one set of keys, each object bound to its group.',
'C11': 'Proof over symbolic models of any size: every combination of set, '
'kind and disconnected argument classes of get_elements and the node '
'getters. Trusted: pytables queries, numpy index operations.',
'C12': 'Proof over symbolic models of any size for the set, kind and number '
'type argument classes. Trusted: pytables queries, numpy index operations; '
'set name lists of one and two names cover longer lists by the loop rule.',
'C13': 'Proof over symbolic result files of any size for get_noderesults, '
'case selection and component assembly. Trusted: pytables, numpy; stored '
'order of the result records.',
'C14': 'Proof over symbolic stresses that each element type reproduces '
'linear fields at its nodes, with the shapes and positions per case and '
'element; real arithmetic.',
'C15': 'Proof for hierarchies of any depth that the transformation is the '
'product along the parents (loop invariant with uninterpreted matrix '
'product for the chain, exact matrices for the coordinates); real '
'arithmetic.',
'C16': 'Proof for all counts that each entry of the returned arrays is the '
'stored value of its record. Trusted: pytables, numpy reshape and moveaxis.',
'C17': 'Proof that records are chosen by body, coupling body and matrix '
'type for any numbering and interleaving.',
'C18': 'Proof with real arithmetic of the definitions for arrays of any '
'shape (position by position).',
'C19': 'Proof that the reachable writer states are closed under every '
'operation with opaque arguments and that each operation keeps the output '
'a prefix of a well-formed file or raises.',
'C20': 'Proof of the decoded contents of a data array for any data, of the '
'node reordering (loop contract for any number of elements) and of the type '
'map; the caller\'s arrays are not written to.',
'C21': 'Proof over symbolic models that section rows, thicknesses and case '
'names follow their references.',
'C22': 'Proof of the writer automaton (column, pending line) for every '
'sequence of writes, and of the reader contract on what it writes. Trusted: '
'Python float formatting with 9 digits.',
}
EXPL = {}
out = {}
for i, n in N.items():
    out[i] = {'technique': T + B, 'level': 'proof', 'note': n + ' A part '
              'that the prover cannot decide after a change is left to the '
              'bounded stand-in and labelled degraded in the evidence.'}
for i, n in EXPL.items():
    out[i] = {'technique': n[0], 'level': 'exploration', 'note': n[1]}
with open(os.path.join(os.path.dirname(__file__) or '.', 'notes.json'),
          'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')

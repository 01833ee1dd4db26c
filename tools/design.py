#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the check table and the text below (python3 tools/design.py)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import props, checks
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
# what is symbolic, and what the result is compared with
HOW = {
 'C01': ('dimensions, rank, element values and reshape targets are symbolic integers and reals', 'the product of the dimensions in 64-bit arithmetic, row-major strides; every element of small tensors is written and read back under the memory model, so storage of the wrong size is an out-of-bounds access'),
 'C02': ('both shapes, all elements, views into caller memory', 'element-wise equality with the saved values; unchanged destination and source after a refused copy'),
 'C03': ('every draw of the generator is a fresh symbolic real in the range of the distribution object (stand-in of the engine, the distribution parameters come from the real code)', 'fill values; the Glorot bound; reachability of both ends of the range by independent elements (an existential query)'),
 'C04': ('kernel, padding, stride and input sizes as bit-vectors', 'the closed formula for the window count, the list of parameters, buffers, initial values and attributes'),
 'C05': ('inputs, weights, bias, gradients, previous gradient content', 'three nested loops over the definition, expanded to polynomials: equality of normal forms, otherwise Z3'),
 'C06': ('inputs and alpha; the sign of x is a path condition or an if-then-else', "the defining formula; far from zero (|x| in 105..1000) exp follows float overflow and underflow, and the saturated value is demanded"),
 'C07': ('inputs, alpha, gradients, previous gradient content, another forward pass in between', "dy * f'(x) at the tensors of the call; saturated gradients far from zero"),
 'C08': ('scores, gradients; exp is an uninterpreted positive function with the functional equation built into the normal form, and overflows / underflows at the float limits', 'exp(x_i)/sum exp(x_j), row sums, ranges; scores of any distance'),
 'C09': ('inputs, weights, bias; geometry enumerated by path splitting inside the bounds', 'direct cross-correlation (definition), polynomial equality; memory accesses of im2col'),
 'C10': ('as C09 with gradients and previous gradient content, either call order, an earlier batch', 'the derivative of the definition, polynomial equality'),
 'C11': ('inputs (any order of the values on small windows, fixed scrambled orders on larger ones)', 'the maximum over the window elements that lie inside the image'),
 'C12': ('as C11 with gradients', 'dy routed to the element equal to the maximum'),
 'C13': ('all elements and gradients', 'mean / sum by definition'),
 'C14': ('inputs, parameters, running statistics, eps, alpha, mode and batch size of every call', 'definition with mean, biased variance and square root as an algebraic function'),
 'C15': ('as C14 with gradients', 'the derivative of the definition, written out independently'),
 'C16': ('inputs, rate, every draw, modes and batch sizes', 'each output is 0 or x/(1-p) and the backward pass uses the same choice; the rate enters as the measure of the draws that drop; reachability of all four outcomes of two draws'),
 'C17': ('probabilities, labels, previous gradient content and earlier calls', 'definition with log as an uninterpreted function'),
 'C18': ('scores, labels', 'argmax by definition'),
 'C19': ('weights, gradients, learning rates, gamma, freeze pattern per step', 'the recurrence'),
 'C20': ('as C19 with the moments, betas, eps, the resumed step count', 'the recurrence with bias correction'),
 'C21': ('data set size, batch size, every sample value, every draw of the shuffling', 'sample order, row contents, epoch ends, distinctness, reachability of the first and the last sample'),
 'C22': ('parameters, state, inputs, gradients, batch and image sizes of the earlier and the present call', 'the same call on a fresh layer (equality), plus the memory model (bounds, lifetime, uninitialised reads)'),
 'C23': ('as C22; every pair of accesses by two simulated threads to one address inside a parallel region is compared', 'no conflicting pair; equality with the batch processed sample by sample'),
 'C24': ('all parameter values and prior content', 'bit equality of every entry; refusal of other structures; failure report of a full device or unopenable path'),
 'C25': ('the cut position, the kind field, the pairing of file and loader', 'an exception and no memory error'),
 'C26': ('the graph (operations, connections, input and output order), attributes, parameters, inputs', 'equality of structure and of computed outputs'),
 'C27': ('sample values, sizes, depth, the stage at which the decoder fails', 'samples in place, exceptions, release of every handle and allocation'),
 'C28': ('the graph, inputs, parameters, output gradients, topological order', 'recursive evaluation of the expression graph and reverse-mode derivative, written independently'),
 'C29': ('names, layer types, order', 'the set of names, shared storage, flags'),
 'C30': ('type, attributes', 'the directly constructed operation'),
 'C31': ('all elements and dimensions', 'the index formula'),
 'C32': ('the layer types, state, inputs, gradients, learning rate, freeze pattern', 'the same layers called one after the other without a model, and the optimizer recurrence written out'),
 'C33': ('every pixel, the class, the labels of the rows, the listing order; the image decoder and std::filesystem are stand-ins over an in-memory tree', 'the pixel formula, the map from path to label, each path seen once'),
 'C34': ('number, rank and shape of the tensors, mode, all values', 'exception exactly for malformed calls; equality of all state and tensors with the copies taken before'),
 'C35': ('the elements and dimensions printed; the graph, the layer names, the shapes', 'the text is recorded at the std::ostream calls (symbolic numbers stay symbolic), parsed (numbers; a small .dot parser) and compared with the elements, dimensions, nodes, edges and ports'),
}
out = [HEAD.rstrip() + '\n']
for p in props.PROPS:
    i = p['id']; c = checks.CHECKS[i]; how = HOW[i]
    t = ''
    out.append(f'### {i} {p["title"]}\n\n'
               f'* Symbolic: {how[0]}.\n* Oracle: {how[1]}.\n* Bounds: {c["bounds"]}.\n* Outside: {c["outside"]}.\n'
               + (f'* Assumes: {"; ".join(c["assumes"])}.\n' if c.get('assumes') else '')
               + f'* Entries: `{c["harness"]}`: {", ".join(c["entries"])}.\n* Beyond tests: {p["why_tests_cant"]}\n')
out.append(TAIL.rstrip() + '\n')
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append(f'| {os.path.basename(os.path.dirname(d))} | {m["property"]} | {m["needs"]} |')
out.append('## Planted changes\n\nEvery one builds, passes the 26 stable tests and is reported by the check of its property (`tools/plant.py` applies, builds, tests, demonstrates and checks each).\n\n| change | property (and check that catches it) | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
kf = json.load(open(V + '/known_findings.json'))['findings']
out.append('## Defects found\n\nAll were repaired by a `fix:` commit; `known_findings.json` lists them, none is suppressed.\n\n' + '\n'.join('* ' + k['what'] for k in kf) + '\n')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))

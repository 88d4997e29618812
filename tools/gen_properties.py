import json
SL='src/sortedcontainers/sortedlist.py'; SD='src/sortedcontainers/sorteddict.py'; SS='src/sortedcontainers/sortedset.py'
VALS=("values whose ordering is a total preorder consistent with equality (for key-ordered containers: any key function "
      "whose keys are totally ordered and which gives equal values equal keys)")
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'state':[{'name':a,'meaning':b,'where':c} for a,b,c in state],
                 'mechanism':[{'name':a,'where':b} for a,b in mech],'observe_at':observe,'hook_needed':None}})
p('C01','A sorted list always holds exactly what was put in, in order',
  "After any sequence of constructions, additions, bulk updates, removals, clears and in-place operators, iterating a sorted list (with or without a key function) yields exactly the values put in and not yet taken out, each as many times as it was put in. They come in non-decreasing order (of the key, if there is one), and the length is their number.",
  ['inputs','histories','configurations'],f'all histories of mutating calls, all {VALS}, any size, with and without key, any positive load factor',
  'tests sample a few hundred small histories with integers; splitting and merging of internal blocks depends on size, load factor and history, and none of the assertions hold for all of them',
  [SL],[('bucketed insertion and splitting','SortedList.add/_expand, SortedKeyList.add/_expand'),('merging on removal','_delete'),('bulk build and merge','update, __iadd__, __imul__, clear, __init__')],
  ['iteration, len(), after any public mutator'],[('lists of lists','contents in buckets',f'{SL}: _lists'),('bucket maxima','last value (or key) of each bucket',f'{SL}: _maxes'),('length','number of values',f'{SL}: _len')])
p('C02','Reading by position agrees with the ordered sequence',
  "Reading a sorted list by an integer position or by a slice (any start, stop and step, including negative and missing ones) gives what the same subscript gives on the plain list of its ordered values. An integer position out of range, on either side, raises IndexError, a zero step raises ValueError, and reading changes nothing.",
  ['inputs','histories'],'all contents and internal layouts reachable by any history, all integer positions, all slices',
  'tests index lists of a few sizes and load factors; the positional tree has a different shape for every number of blocks, and it is rebuilt or patched depending on history',
  [SL],[('positional sum tree','_build_index, _pos, _loc'),('subscript','__getitem__')],['x[i], x[a:b:c]'],[('positional index','sum tree over bucket sizes',f'{SL}: _index, _offset')])
p('C03','Removing by position removes exactly the addressed values',
  "Deleting an integer position or any slice, or popping (with or without a position), removes exactly the values that the same operation removes from the plain list of ordered values, and pop returns the removed value. Everything else keeps its order, and a position out of range raises IndexError with nothing changed.",
  ['inputs','histories'],'all contents and layouts, all positions and all slices including negative and extended steps',
  'tests delete a few positions and slices; the code has separate paths for whole, contiguous, extended and negative slices and for first/last blocks, crossed with block merging',
  [SL],[('subscript deletion','__delitem__'),('pop','pop'),('bucket merge and index patching','_delete')],['del x[i], del x[a:b:c], x.pop(i)'])
p('C04','Searching agrees with a linear scan of the ordered sequence',
  "Left and right bisection by value (and by key) return the number of elements ordered before, respectively not after, the argument; membership, count and index (with any start and stop) return what scanning the ordered values and comparing with == gives. index raises ValueError exactly when the scan finds nothing in range, and searching changes nothing.",
  ['inputs','histories'],f'all contents and layouts, all arguments including absent and extreme ones; all {VALS}',
  'tests search small integer lists; duplicates that straddle internal blocks, and distinct values with equal keys, occur only for particular sizes and histories',
  [SL],[('two-level bisection','bisect_left, bisect_right, bisect_key_left, bisect_key_right, __contains__, count, index'),('position arithmetic','_loc')],['x.bisect*(v), v in x, x.count(v), x.index(v, i, j)'])
p('C05','Range and slice iteration yield exactly the requested window',
  "Forward and reverse iteration, iteration over an index window, and iteration over a value range or key range yield exactly the elements inside the window, in ascending order or, reversed, in descending order. A range with a missing bound is open on that side, and each bound is included or excluded as asked.",
  ['inputs','histories'],'all contents and layouts, all bounds (absent, missing, crossed), all four inclusive combinations, both directions',
  'tests try ranges on one hundred integers; window edges relative to internal block edges and duplicates of the bound give many more cases',
  [SL],[('window iteration','islice, _islice, irange, irange_key, __iter__, __reversed__')],['iter(x), reversed(x), x.islice(...), x.irange(...), x.irange_key(...)'])
p('C06','Removal by value takes out exactly one equal element',
  "Removing a value that occurs takes out exactly one element equal to it and leaves every other element in place and in order; the element taken is the first of the equal ones. When no element equals it, discard does nothing and remove raises ValueError, with nothing changed.",
  ['inputs','histories'],'all contents and layouts, including many different values with equal keys spread over several internal blocks',
  'tests remove from small lists; equal keys crossing block borders need particular sizes and histories',
  [SL],[('search for the equal element among equal keys','discard, remove'),('bucket merge','_delete')],['x.remove(v), x.discard(v), list(x)'])
p('C07','Elements that compare equal keep the order in which they were added',
  "Among elements that order equally, those added earlier come before those added later: adding a value places it after the present elements it ties with, and building or bulk-updating from an iterable keeps the iterable's order among ties, after the elements already there. So equal keys never reorder their values.",
  ['inputs','histories'],'all histories of add, update, in-place operators and construction, all values with ties',
  'tests use integers, where ties are indistinguishable; observing order needs values that tie but differ, crossed with block splits',
  [SL],[('right-biased insertion','add (bisect_right, insort)'),('stable bulk sort','update, __iadd__, __init__')],['list(x) of values that tie but are distinguishable'])
p('C08','Internal blocks stay within their bounds and the self-check passes',
  "After any sequence of public operations and changes of the load factor, the container's own consistency check passes: block maxima, cached keys, length and the positional index agree with the contents, and no block is empty or larger than twice the load factor, nor (except the last) smaller than half of it. Changing the load factor keeps the contents.",
  ['histories','configurations'],'all histories of public calls, all load factors of at least one (the built-in check itself needs four)',
  'tests run the check after sampled histories; each split, merge and index patch depends on the exact history and load factor',
  [SL],[('split','_expand'),('merge and shrink','_delete'),('sum tree','_build_index'),('load factor change','_reset'),('self check','_check')],['x._check(), x._reset(load)'],
  [('load factor','target bucket size',f'{SL}: _load')])
p('C09','Copies and sums of sorted lists are right and independent',
  "Copying a sorted list, adding an iterable on either side, multiplying by an integer on either side, and rebuilding from the pickle state give a new container of the same class with the same key function whose contents are the corresponding sorted multiset. The operands are unchanged and later changes to either side do not show in the other.",
  ['inputs','histories'],'all contents, all iterables including the container itself, all multipliers including zero and negative ones, with and without key',
  'tests check a few results and never the operands or the sharing of internal state afterwards',
  [SL],[('derivation','copy, __copy__, __add__, __radd__, __mul__, __rmul__, __reduce__, __new__')],['x.copy(), x + y, y + x, x * n, n * x, pickle'])
p('C10','Comparison of sorted lists is lexicographic',
  "Comparing a sorted list with a sequence by ==, !=, <, <=, > or >= gives the result of comparing the plain list of its ordered values with that sequence element by element, the shorter being smaller when one is a prefix. Comparison with something that is not a sequence is not supported, and no comparison changes either side.",
  ['inputs'],'all pairs of sorted lists and sequences, including prefixes, equal ones and itself',
  'tests compare a handful of pairs; agreement of the six operators over all pairs is a universally quantified claim',
  [SL],[('comparison factory','__make_cmp and the six methods made by it')],['x == y, x < y, ...'])
p('C11','A sorted dict is a mapping whose keys are always the sorted keys',
  "After any sequence of mutations (item assignment and deletion, update from mappings, pairs or keywords, setdefault, pop, popitem, clear, in-place merge) a sorted dict maps exactly the keys and values an ordinary dict would after the same operations. Iterating it, in either direction, yields exactly those keys once each in sorted order.",
  ['inputs','histories','configurations'],f'all histories of public mutators, all hashable keys with {VALS}, with and without key function',
  'the mapping and the key sequence are two structures updated separately in every mutator; tests exercise a few histories per mutator',
  [SD,SL],[('paired updates of dict and key list','__setitem__, __delitem__, setdefault, pop, popitem, clear, update, __ior__, __init__')],['list(d), reversed(d), len(d), d[k], d.items(), after any mutator'],
  [('key list','sorted sequence of the keys',f'{SD}: _list'),('key function','ordering key',f'{SD}: _key')])
p('C12','Positional access to a sorted dict agrees with its sorted keys',
  "Peeking at or popping an item by position returns the key at that position of the sorted keys with its value; key, value and item views subscripted by integer or slice, searched, counted and iterated give what the corresponding plain list gives, and deleting a position or slice through the key view removes exactly those items. Out-of-range positions raise IndexError (KeyError when the dict is empty and an item is popped) and change nothing.",
  ['inputs','histories'],'all contents, all positions and slices, all three views',
  'tests use one dict of 26 letters; positions, slices and removal through views are crossed with every layout of the key sequence',
  [SD],[('positional items','peekitem, popitem'),('views','SortedKeysView, SortedItemsView, SortedValuesView: __getitem__, __delitem__')],['d.peekitem(i), d.popitem(i), d.keys()[i], d.values()[a:b], d.items()[i], del d.keys()[i]'])
p('C13','A sorted set holds each value once, in order, and agrees with set semantics',
  "After any sequence of mutations (add, discard, remove, pop, clear, bulk and in-place set operations, positional deletion) a sorted set contains exactly the values an ordinary set would after the same operations. Iteration in both directions and subscripts show each of them once in sorted order, and membership, length, count and index agree with that sequence.",
  ['inputs','histories','configurations'],f'all histories of public mutators, all hashable values with {VALS}, with and without key function',
  'membership and order live in two structures updated separately; tests run sampled histories on integers',
  [SS,SL],[('paired updates of set and list','add, discard, remove, pop, clear, update, difference_update, ..., __delitem__, __init__')],['list(s), v in s, len(s), s[i], after any mutator'],
  [('value set','membership',f'{SS}: _set'),('value list','order',f'{SS}: _list')])
p('C14','Set algebra and subset comparisons follow the mathematical sets',
  "Union, intersection, difference and symmetric difference, as methods with any number of iterables (the symmetric one takes one), as operators and in place, contain exactly the values of the mathematical result in sorted order, keep the key function when called on a keyed sorted set, and leave all other operands unchanged. The comparisons ==, !=, <, <=, >, >=, and the subset, superset and disjointness tests are those of the underlying mathematical sets.",
  ['inputs'],'all pairs and tuples of operands, including empty, equal, overlapping and the set itself; sorted sets, sets and iterables as operands',
  'tests evaluate each operation on one or two pairs of integer sets, never all argument counts and overlaps',
  [SS],[('algebra','difference, intersection, symmetric_difference, union and their updates and operators, _fromset'),('comparison factory','__make_cmp'),('delegation','isdisjoint, issubset, issuperset')],['s | t, s & t, s - t, s ^ t, s |= t, s <= t, s.union(...), ...'])
p('C15','Derived sorted dicts and sets are right and independent',
  "Copying a sorted dict or set, building a dict from keys, merging dicts with | on either side, and rebuilding from the pickle state give a new sorted container with the mathematically expected contents in order and the same key function (except building from keys, which has none). The operands are unchanged and later changes to either side do not show in the other.",
  ['inputs','histories'],'all contents and operands, with and without key function',
  'tests check the immediate value of a few derivations, not the order under other key functions or independence afterwards',
  [SD,SS],[('derivation','SortedDict.copy/__copy__/fromkeys/__or__/__ror__/__reduce__/__init__, SortedSet.copy/__reduce__/_fromset')],['d.copy(), SortedDict.fromkeys, d | e, e | d, pickle, s.copy()'])
p('C16','A rejected operation leaves the container unchanged',
  "When a public operation on a sorted list, dict or set raises one of its documented errors (missing value or key, position out of range, zero step, operation not supported, wrong kind of argument), or a single-element addition or search is given a value that cannot be ordered against the present ones, the container afterwards holds exactly what it held before. It remains usable: every guarantee above still applies to it.",
  ['inputs','histories','fault_sequences'],'all containers and all rejecting calls; the failure of any single comparison during the search of a single-element operation',
  'tests assert that errors are raised but rarely look at the container afterwards, and never for a comparison that fails midway',
  [SL,SD,SS],[('order of validation and mutation','every mutator')],['contents and self-check after a call that raised'])
p('C17','Operations stay within their documented running times',
  "Single-element operations and positional access take a number of comparisons and element moves that grows at most with the documented bounds (roughly the square root or cube root of the size, logarithmic for searches). Bulk construction costs a sort of the input.",
  ['inputs','histories'],'all histories and sizes',
  'benchmarks sample sizes; a bound over all histories is not a test',
  [SL],[('bucket bounds and positional tree','add, _expand, _delete, _pos, _loc')],['operation counts'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')

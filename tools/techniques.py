COMMON = ('Assumes the clang front end, the C++ standard containers behaving as specified, and real arithmetic for equality of numeric terms. '
          'A construct outside the model makes the obligation undecided (listed in the evidence), never a violation.')
AI = 'abstract interpretation of the source into symbolic effect summaries'
TECH = {
 'C01': (AI + '; getter/setter/constructor layout rules', 'Index arithmetic and storage effects of every value container are compared for all sizes and indices.'),
 'C02': (AI + '; index-map bijection by linear/quadratic inequality reasoning', 'The index polynomial is shown injective and onto for every size.'),
 'C03': (AI + '; worklist/loop-invariant rules over the path construction', 'Structure of setPath and of the constructor decided for every parent vector that is a tree.'),
 'C04': (AI + '; canonical polynomial comparison of the complexity functions', 'Equality of the computed terms with the definitions for all arguments.'),
 'C05': (AI + '; inductive invariant over the interval sums (prefix normal form), exactly-once and order rules', 'For all lengths, series and values.'),
 'C06': (AI + '; contribution dataflow along the hierarchy per node region', 'For every tree (children before parents from C03).'),
 'C07': (AI + '; contribution dataflow and interval induction per node and time region', 'For every tree and series length.'),
 'C08': (AI + '; in-place division dataflow (divisor saved before, every cell once)', 'For all sizes and values.'),
 'C09': (AI + '; recurrence, running-maximum and evaluation-order rules per index region', 'For every number of elements and every quality.'),
 'C10': (AI + '; recurrence, contribution and order rules per node region', 'For every tree (children before parents from C03) and every quality.'),
 'C11': (AI + '; recurrence, running-maximum and lexicographic order rules per node and interval region', 'For every tree, series length and quality.'),
 'C12': (AI + '; recursion regions and index coverage (Fourier-Motzkin) of the parts', 'For every set of cuts.'),
 'C13': (AI + '; closed form of the quality fold', 'For every list of parts.'),
 'C14': (AI + '; order and path-condition rules over the sweep and its recursion', 'For all data, thresholds and ranges; recursion decided by one activation in terms of its ends.'),
 'C15': (AI + '; variant rule on recursive calls (rounded midpoint strictly inside)', 'For all thresholds and ranges, with floating-point rounding kept symbolic.'),
 'C16': (AI + '; typestate of result containers (emptied before extended) and stale-member reads', 'For every history of sweeps on one object.'),
 'C17': (AI + '; column dataflow of the reported rows', 'For all partitions and parts.'),
 'C18': (AI + '; argmin-fold and closed-form sum rules over the retained lists, unsigned-wrap rule for empty results', 'For all retained results, none included.'),
 'C19': (AI + '; closed forms of the accumulations, leaf-linear contract of the recursive helpers, per-part storage order', 'For all parts, series, dimension counts and trees.'),
 'C20': (AI + '; componentwise term comparison of the operators', 'For all operands.'),
 'C21': (AI + '; boolean equivalence of comparison operators over ordered terms', 'For all operands.'),
 'C22': (AI + '; ownership/effect analysis (pointer provenance of every store, by-value fields, no leftovers between calls)', 'All stores reachable from the public operations, for all inputs and call histories.'),
 'C23': ('effect lint over the typed program: shared mutable state, forbidden callees, address-dependent results', 'Every function, global, static local and external callee of the library.'),
 'C24': ('declaration/definition matching over the compiler IR, header self-containedness, per configuration; abstract interpretation of the comparison operators', 'Every declaration of the installed headers, in every documented configuration.'),
 'C25': ('abstract interpretation with symbolic container sizes and loop ranges (bounds of every access), definite-assignment and null-object dataflow, iterator invalidation lint', 'Container accesses of the library, sizes and index ranges derived from the code; accesses whose index comes from user-supplied data are listed as undecided.'),
 'C26': ('type and conversion lint over the typed program with a parameter/data flow classification; narrowing instructions of standard-library instantiations in the compiler IR', 'Every floating conversion, arithmetic step and constant of the library.'),
 'C27': (AI + ' of the C++ source embedded in the R file (type-checked against stand-in Rcpp/Armadillo headers); pipeline typestate and copy provenance', 'All arrays, hierarchies and thresholds; R itself and Rcpp conversions are trusted.'),
 'C28': ('ownership analysis over the typed program: where each allocated object and raw pointer goes, provenance of every pointer a smart pointer takes over, lifetime of returned and kept references, ownership cycles between classes', 'Every allocation, smart-pointer construction, deletion, returned reference and member of the library and of the R interface source.'),
}
NA = {'C29': 'The amounts are produced by SQL joins and dplyr pipelines over data frames whose columns, groups and row counts exist only at run time; neither R nor a front end for R (types, data-frame schemas, the embedded SQL) is installed, so there is no typed program to analyse, and a textual check of the script would not judge what it computes.'}

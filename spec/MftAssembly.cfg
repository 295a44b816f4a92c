SPECIFICATION Spec
INVARIANTS OnceInOrder Complete Disjoint LookupAgrees Report

EXTRA='''| C21 | compiler/C21_image.go | all of Compile, up to the expansion of the name. Bounded: service aliases and build images (N_alias) |
| C22 | C22_parse.go, linter/C22_crash.go, compiler/C22_crash.go | no nil dereference, index, nil-map write or failed assertion on any path of ParseRaw's resources, Lint and Compile |
| C23 | C23_forms.go | every decoder and encoder run against an arbitrary node: for each type it is asked for the node gives an arbitrary value or an arbitrary error |
| C24 | converter/legacy/internal/C24_legacy.go, converter/legacy/matrix/C24_matrix.go | the conversion functions one by one; a slice whose elements a function assigns in place is an array of its own in that call (the caller's view of the write is dropped). Bounded: N_volumes and N_secrets (completeness), N_rows (combinations), N_file (whole files against the proved functions) |
| C25 | converter/C25_dispatch.go, converter/bitbucket/C25_stage.go | native files and Bitbucket's choice of pipeline. Bounded: N_dispatch (which texts are old, and that each converter gets its files) |
| C26 | not applicable | the meaning of printed text is decided by the scanner of the yaml library, outside the contracts |
'''
FIXED='''| 149f9f3 | C22 | an empty list item crashed the linter and the compiler |
'''
NOTICED='''
matrix.calc divides by zero on an empty axis and stops at 27 axes and 12 values;
the legacy converter adds a step once per matching key; the gitlab converter emits jobs in map order, panics on a nil job and aliases
an appended slice; the bitbucket converter lists services in map order; the printer drops Registry, Conditions.Matrix and Cron.Type,
prints the name of a secret twice and quotes too little; two builds that name one image in different spelling make Compile's renaming
depend on map order; createStep drops Devices; WriteTo returns bytes together with an error; a condition in none
of its notations (include: x instead of a list) is read as empty, and matches everything; the old volume notation without a colon is lost.
'''

import json,glob,os,re
body = r'''# Contract-based verification of drone-yaml

## How a property is decided

Each property of `properties.jsonl` is a set of *harness functions* (`spec/<package>/C<nn>_*.go`, functions
`P_C<nn>_<name>`) and *contracts* (`contract_*.go`, `Contract_<func>`), written in Go and put into the package of the
code through a build overlay: `/repo` carries no annotation and no hook, and nothing of the code is copied or rewritten.
A harness calls the real function and states

* `vRequire` (precondition), `vEnsure` (postcondition), `vLemma` (a postcondition later ones may use),
* `vNoPanic` (no run-time panic from here on) / `vMayPanic`, `vUnchanged` (frame: no object that existed before the call
  has changed), `vFresh` (object did not exist before), `vApart` (distinct objects), `vSame` (deep equality),
* `vForall/vExists/vForallKey/vExistsKey/vForallStr` (quantifiers), `vOld` (value before the call), `vAbstract` (names an
  intermediate value), `vReader/vReadable` (a reader of given contents that may fail).

On every run `check <ID>`

1. loads the current tree with the overlay and dumps its SSA (`front/`, golang.org/x/tools/go/ssa);
2. executes the harness symbolically over that SSA (`vc/sym.py`, `step.py`): heap as one array per struct field, slices as
   (length, array, nil) values, maps as (domain, value) arrays, strings as an uninterpreted sort with concatenation,
   length and library functions as uninterpreted functions;
3. summarises **every loop for an unbounded number of iterations** (`loops.py`): each value changed by the loop becomes a
   function of the iteration index, with recurrence facts, closed forms for counters and appended lists, last-change,
   first-change and first-exit facts, coupling of two loops over the same sequence, and inferred invariants (monotone
   growth, freshness of written references, set-once fields), each invariant candidate proved by a one-step induction
   before it is used. There is no unrolling bound anywhere;
4. splits every obligation into parts and discharges each with z3 (several configurations, relevance-filtered hypotheses,
   then all hypotheses, then cvc5; a second round runs all configurations in parallel on the parts left).
   `proved` = the negation is unsatisfiable for all inputs; everything else fails the check;
5. checks that the hypotheses of every postcondition are not contradictory (reachability queries);
6. proves, in the same run, every `Contract_*` a call site relied on against the callee's body. A contract with
   `vFunctional(r1, r2)` (two calls agree, and the footprint of the symbolic execution reads nothing but the arguments and
   what they point to) lets callers treat the result as an uninterpreted function;
7. compiles the same harnesses natively and runs them on generated inputs (before the proof; bounded, labelled so, never
   counted as proof). This cross-checks the semantics of steps 2-4 against the running code, and when the code breaks a
   property it gives the failing input, written to the replay file (`./check --replay FILE` runs it again on the real
   code). When the native run finds a failing input the proof effort is cut short, because the verdict is settled.

Where no failing input is found for an obligation that is not discharged, the VIOLATION line ends with
`no-failing-input-found` and the replay file names the obligation and holds the solver output.

Callees without a contract are inlined (a caller is then checked against the body of the callee, which is stronger but
dearer); recursive callees need a contract or are outside the subset. Code outside the subset makes the obligation fail.
Each check stops looking for proofs after 780 s.

Harnesses named `N_*` are **bounded**: they are only run natively on generated inputs. They are listed below per property
and reported under `bounded` in the evidence; they never count as an obligation.

## Assumptions left unchecked

* machine integers are mathematical; floats are uninterpreted;
* a slice is a value: `append` never writes through spare capacity shared with another live slice;
* partial correctness: panicking or diverging paths satisfy a postcondition unless the harness says `vNoPanic`;
* library functions are pure and uninterpreted with the facts in `vc/externs.py` (each evidence file lists those used):
  among them yaml.Unmarshal/Marshal, doublestar.Match, docker/distribution/reference, encoding/*, crypto/hmac (a function
  of key and bytes; collisions and forgeries are not considered), strings.*, bufio.Scanner (the line splitting of
  ScanLines and the 1 MB limit the code sets), io.Reader (any contents, may fail at any point);
* crypto/rand.Read does not fail (Go 1.24 and later end the program instead);
* callback parameters are deterministic and do not write to what they are given;
* trusted: z3/cvc5, go/ssa and the Go type checker, `front/`, `vc/`. The generator was tested by the native runs and by
  the planted bugs; one unsoundness (two branches with different allocation counters merged without aligning them) was
  found by a reachability query and fixed, and the reachability queries stay in every run.

## Properties

Statements are in `properties.jsonl` (source: `tools/props_data.py`). What decides each one:

| id | obligations (spec/yaml/...) | remarks; bounded parts |
|----|------------------------------|------------------------|
| C01 | linter/C01_gate.go | Lint(p,false)==nil implies every restriction, for each step, service and volume |
| C02 | linter/C02_structure.go | names (one set threaded through both loops) by the grow-only lemma on sets |
| C03 | linter/C03_deps.go | each dependency is a name inserted by an earlier iteration |
| C04 | linter/C04_accept.go | converse direction and frame |
| C05 | linter/C05_manifest.go | both directions, frame |
| C06 | C06_split.go, contract_docs.go | the oracle `DocsOf` is a second reader written in the spec; `ParseRaw` is proved equal to it for every text by coupling their loops. Bounded: split of whole sampled files against an independent splitter, long lines, the path entry points |
| C07 | C07_kinds.go | dispatch, decode and order against `ParseRaw`'s contract. Bounded: JSON round trip, whole-manifest comparison |
| C08 | signer/C08_sign.go | sign/verify against `ParseRaw`'s contract, hmac uninterpreted. Bounded: tampering with a sampled file. Known finding below |
| C09 | signer/C09_update.go | sequence written = documents kept + one signature. Bounded: written file reads back, verifies, and re-signing is the identity (needs the splitter and the printer together) |
| C10 | C10_cond.go, compiler/C10_skip.go | both directions of Match and SkipFunc |
| C11 | compiler/C11_privileged.go | all of Compile, arbitrary callbacks; DindFunc separately |
| C12 | compiler/C12_steps.go | all of Compile; frame through two lemmas on freshness of compiled steps |
| C13 | compiler/C13_deps.go | all of Compile |
| C14 | compiler/C14_env.go | env, settings, secrets, workspace variables of createStep / Compile. Bounded: whole Compile with generated settings (N_env), encoding of nested lists (N_list) |
| C15 | compiler/C15_volumes.go | volumes of the spec, mounts of steps. Bounded: exact mount list over all of Compile (N_mounts) |
| C16 | compiler/C16_policy.go | Condition.Match by its functional contract |
| C17 | compiler/C17_script.go | script text by the concatenation summary of the loop over commands, step wiring. Bounded: none of the shell semantics is proved: "printing never evaluates" is proved as "the printed text is the quoted form" with quoting facts on strings.Replace |
| C18 | compiler/C18_fields.go | field by field on the create functions. Bounded: the same over all of Compile (N_compiled) |
| C19 | compiler/transform/C19_filter.go | exact policies and frame |
| C20 | compiler/transform/C20_transforms.go | one harness per transform. Bounded: N_combine, N_labels, N_mounts, N_slice |
@@EXTRA@@

### Defects found and repaired (commits "fix:" in /repo)

| commit | property | what failed |
|--------|----------|-------------|
| e1b2786 | C06 | ParseRaw dropped the rest of a file after a reader error or an over-long line without an error |
| a6d2eb6 | C15 | CreateHostWorkspace made a volume without namespace and labels (labelling it panicked) |
| 3d3b95f | C17 | the posix trace line ran backtick substitutions of a command while printing it |
| eac7dba | C17 | a single quote in a command ended the quoting of the windows trace line |
| 8f35113 | (CLI) | `drone-yaml convert --save` never wrote the file |
@@FIXED@@

### Known finding

C08: `signer.sign` hashes the documents one after the other without a separator, so a document boundary of a signed file
can be moved and the file still verifies. The value of existing signatures is pinned by a test, so this is recorded
(`known_findings.json`, harness N_KC08_boundary) and not changed.

### Noticed, outside the listed properties

@@NOTICED@@

## Planted bugs

`tools/seeds_data.py` is the source of `seeded/`; `tools/seeds.py` builds and validates each in a scratch copy;
`tools/catch.py` applies each to /repo, runs the check of its property and undoes it. All are caught by the check of
their property; the last column says whether that check also replays a failing input on the real code.

@@SEEDS@@
'''
exec(open('/verif/tools/design_x.py').read())
rows=['| planted bug | needs | caught by |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s, with a failing input |'%(i,m['needs'].replace('|','/'),m['property']))
s=body.replace('@@EXTRA@@\n',EXTRA).replace('@@FIXED@@\n',FIXED).replace('@@NOTICED@@',NOTICED.strip()).replace('@@SEEDS@@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)

LINT = 'yaml/linter/linter.go'
prop('C01', 'Untrusted pipelines that pass lint use no privileged feature',
     'If linting a pipeline for an untrusted repository reports no error, then no step and no service of it is privileged, mounts devices, sets dns, dns_search, extra_hosts or network_mode, or binds a host port, and no volume of it is a host path or an in-memory directory.',
     ['inputs', 'programs'], 'every pipeline object (any number of steps, services, volumes, ports), trusted = false',
     'The tests lint one testdata file per feature, each with the feature on a single step; that no combination and no position in the lists slips through is a statement over all pipelines.',
     [LINT], [('checkContainer/checkPorts/checkVolumes gate on trusted', LINT)], ['linter.Lint result'])
prop('C02', 'Pipelines that pass lint are structurally sound',
     'If linting a pipeline reports no error, every step and service has a name and an image (or a build with an image), all step and service names are pairwise distinct and none is "clone" unless cloning is disabled, no volume and no mount uses a reserved internal volume name, and the platform os and architecture are empty or supported.',
     ['inputs', 'programs'], 'every pipeline object, trusted or not',
     'Tests sample one bad file per rule; uniqueness over arbitrarily many steps and services needs a universally quantified argument.',
     [LINT], [('names set threaded through steps and services', LINT), ('checkPlatform tables', LINT)], ['linter.Lint result'])
prop('C03', 'Step dependencies that pass lint point backwards',
     'If linting a pipeline reports no error, every dependency of every step names the clone step (when cloning is enabled) or a step that appears strictly earlier in the list; step dependencies therefore cannot be dangling or cyclic.',
     ['inputs', 'programs'], 'every pipeline object with any dependency graph',
     'Tests try one missing and one cyclic dependency; acyclicity is a property of all graphs.',
     [LINT], [('checkDeps against the names seen so far', LINT)], ['linter.Lint result'])
prop('C04', 'Lint rejects nothing else and changes nothing',
     'A pipeline that meets the documented conditions (no empty list items, names, images, reserved names, platform, backward dependencies and, when untrusted, no privileged feature) is accepted, with no false rejection; cron, secret, registry and signature resources are accepted exactly when they name a branch, carry data or a reference, carry data, carry an hmac. Linting never modifies the resource.',
     ['inputs', 'programs'], 'every resource object, trusted or not',
     'Absence of false rejections quantifies over all conforming resources; the tests lint a handful of valid files.',
     [LINT, 'yaml/cron.go', 'yaml/secret.go', 'yaml/registry.go', 'yaml/signature.go'],
     [('checkPipeline and helpers', LINT), ('Validate methods', 'yaml/*.go')], ['linter.Lint result', 'the linted object afterwards'])
prop('C05', 'Manifest lint accepts exactly consistent manifests',
     'Linting a manifest reports no error exactly when pipeline names are pairwise distinct, every pipeline dependency names a different pipeline that appears earlier in the manifest, and every docker pipeline has an empty or supported platform; the manifest is not modified.',
     ['inputs', 'programs'], 'every manifest: any number and mix of resources, any dependency graph',
     'Tests lint four small files; the claim quantifies over all dependency graphs and resource orders, in both directions.',
     ['yaml/linter/config.go'], [('checkPipelines/checkPipelineDeps', 'yaml/linter/config.go')], ['linter.Manifest result'])
COMP = 'yaml/compiler/compiler.go'
STEP = 'yaml/compiler/step.go'
prop('C10', 'Conditions decide exactly which steps run',
     'A condition matches a value exactly when no exclude pattern matches it and either there are no include patterns or some include pattern matches it; SkipFunc skips a container exactly when one of its branch, cron, event, instance, ref, repo, target or action conditions does not match the build; neither changes the container.',
     ['inputs'], 'every condition (any pattern lists), every value, every container and build',
     'Tests enumerate some pattern/value pairs; the precedence of exclude over include for arbitrary pattern lists is a universal statement.',
     ['yaml/cond.go', 'yaml/compiler/skip.go'], [('Condition.Match/Includes/Excludes', 'yaml/cond.go'), ('SkipFunc', 'yaml/compiler/skip.go')], ['results of Match and of SkipFunc'])
prop('C11', 'Compiled containers are privileged only when requested or approved',
     'In the compiled pipeline a container runs privileged exactly when its definition requests it (and it is not a build step) or the configured privileged function approves that container; the clone step never does, and without a privileged function nothing is added. DindFunc approves exactly the containers without commands, command and entrypoint whose image, ignoring tags, is in the list.',
     ['inputs', 'programs'], 'every pipeline, every privileged callback, every whitelist',
     'The tests compile no pipeline at all; the claim is about every container of every pipeline.',
     [COMP, STEP, 'yaml/compiler/dind.go', 'yaml/compiler/image/image.go'], [('createStep/createBuildStep Privileged field', STEP), ('privileged callback', COMP), ('DindFunc', 'yaml/compiler/dind.go')], ['Spec.Steps[].Docker.Privileged'])
prop('C12', 'Compilation keeps every step, in order, and leaves the pipeline alone',
     'The compiled pipeline has exactly one runtime step for the clone (unless disabled), then one per service, then one per step, in the order and with the names of the definition; services are detached, steps exactly when they ask for it. Compiling does not modify the pipeline.',
     ['inputs', 'programs'], 'every pipeline with any number of services and steps',
     'Needs induction over lists of any length, and a frame condition over the whole pipeline object.',
     [COMP, STEP], [('the service and step loops of Compile', COMP)], ['Spec.Steps', 'the pipeline afterwards'])
prop('C13', 'Compiled dependencies honour the pipeline graph',
     'The dependencies of each compiled step are those of its definition; in a pipeline where some step declares dependencies and cloning is enabled, every service and every step without dependencies depends on the clone step in addition, so nothing starts before the clone. The clone step depends on nothing.',
     ['inputs', 'programs'], 'every pipeline with any dependency lists',
     'The tests compile no pipeline; the claim needs all graphs.',
     [COMP, STEP], [('isSerial and the clone dependency', COMP)], ['Spec.Steps[].DependsOn'])
prop('C16', 'Run policies follow the conditions and the failure setting',
     'A compiled container never runs if the skip function rejects it or its status condition matches neither success nor an explicitly included failure; it always runs if the condition matches both, runs on failure only if it matches just an explicitly included failure, and on success otherwise. Its errors are ignored exactly when failure is "ignore" (in any case). The clone step runs on success and its errors count.',
     ['inputs', 'programs'], 'every pipeline, every status condition, all build metadata of SkipFunc',
     'The tests check toRunPolicy on a few conditions and nothing of Compile; the combination with skip, over all steps and services, is untested.',
     [COMP, 'yaml/compiler/convert.go', 'yaml/compiler/skip.go'], [('toRunPolicy/toIgnoreErr', 'yaml/compiler/convert.go'), ('skip in the service and step loops', COMP)], ['Spec.Steps[].RunPolicy', 'Spec.Steps[].IgnoreErr'])
prop('C14', 'Variables, settings and secrets reach the step they are declared on',
     'A step receives exactly: each environment variable with a literal value under its own name and with that value, each literal setting as PLUGIN_ plus its upper-cased name with its encoded value (a string as it is, an integer in decimal, a boolean as true or false, a list of strings separated by commas), and the workspace variables when it has a workspace; each variable or setting taken from a secret becomes a reference to that secret under the same name, never a literal. Nothing else is passed and no secret reference is added or lost.',
     ['inputs', 'programs'], 'every container, any number of variables and settings with literal values or secret references',
     'The tests cover encode on a few values and no container; that no variable is lost, renamed or leaked is a statement over all maps.',
     [STEP, COMP, 'yaml/compiler/encode.go', 'yaml/compiler/workspace.go'], [('the environment and settings loops of createStep', STEP), ('encode', 'yaml/compiler/encode.go'), ('setupWorkingDir/setupWorkspaceEnv', 'yaml/compiler/workspace.go')], ['Spec.Steps[].Envs', 'Spec.Steps[].Secrets'],
     note='proved for createStep and the workspace functions; the whole of Compile and encoded lists by bounded runs of the same specification')
prop('C15', 'Volumes are declared and mounted where the pipeline asks',
     'The compiled pipeline declares the workspace volume first, then one volume per pipeline volume in order with its kind and settings, and the docker socket last exactly when some step builds an image. A compiled step mounts each of its volumes at the declared path, its workspace, and (build steps only) the docker socket, and nothing else.',
     ['inputs', 'programs'], 'every pipeline with any number of volumes, steps and mounts',
     'The tests compile no pipeline; that no step gains a mount (the docker socket in particular) is a claim about all of them.',
     [COMP, STEP, 'yaml/compiler/workspace.go'], [('the volume loop and the docker socket of Compile', COMP), ('mounts of createStep/createBuildStep', STEP)], ['Spec.Docker.Volumes', 'Spec.Steps[].Volumes', 'Spec.Steps[].WorkingDir'],
     note='volumes, working directories and the mounts of createStep/createBuildStep proved; mounts over the whole of Compile by bounded runs')
prop('C18', 'Container settings survive compilation',
     'Entrypoint and command (unless a script replaces them), dns, search domains, extra hosts, network mode, user, dependencies, ports, pull policy (case-insensitive, anything unknown means the default) and resource limits and requests (memory in bytes, cpu in thousandths) of a compiled step are those of its definition. A build step runs the docker build image with the context, dockerfile, arguments, cache images and image of its definition and nothing of its script, secrets or network. The clone step uses the clone image of the platform, the depth and skip_verify settings and never pulls an image it has.',
     ['inputs', 'programs'], 'every container and every clone and platform setting',
     'The tests cover toPullPolicy and the ports on a few values, nothing of createStep and createBuildStep.',
     [STEP, COMP, 'yaml/compiler/convert.go', 'yaml/compiler/clone.go'], [('createStep/createBuildStep', STEP), ('conversion helpers', 'yaml/compiler/convert.go'), ('createClone/setupClone*', 'yaml/compiler/clone.go')], ['Spec.Steps[] fields'],
     note='proved per function; the same over the whole of Compile by bounded runs; resource arithmetic on cpu is IEEE floating point taken as an uninterpreted commutative product')
TR = 'yaml/compiler/transform/'
prop('C19', 'Include, exclude and resume select exactly the named steps',
     'Include stops every step that is neither the clone step nor named, Exclude stops every named step other than the clone step, ResumeAt stops every step before the named one other than the clone step (every other step if no step has the name, none if the name is empty); an empty list changes nothing. The transforms change run policies only: no step is added, removed, reordered or otherwise altered.',
     ['inputs'], 'every spec with any steps, every list of names',
     'The tests use two or three fixed steps; the claim quantifies over all step lists and name lists.',
     [TR + 'filter.go'], [('Include/Exclude/ResumeAt', TR + 'filter.go')], ['Spec.Steps[].RunPolicy'])
prop('C20', 'Transforms add exactly what they are given to every step',
     'WithAuths and WithAuthsFunc add the credentials after the existing ones; WithEnviron and WithProxy give every step every variable (the proxy settings of the host under the upper-case and lower-case name) and leave its other variables alone; WithLables labels the specification, every volume and every step; WithLimits sets the limits of every step if there are any; WithNetrc gives every step the credentials when there are user name and password; WithNetworks adds the networks to every step after its own; WithSecrets adds one secret per entry; WithSecretFunc asks for exactly the secrets of the steps that may run, each once; WithVolumes and WithVolumeSlice add one host volume per entry and mount it in every step; Combine runs its functions once each, in order.',
     ['inputs'], 'every specification (any number of steps and volumes) and every argument',
     'The tests apply each transform to one or two steps; that no step is missed and nothing else is changed is a claim over all of them.',
     [TR + f for f in ('auths.go', 'env.go', 'labels.go', 'limits.go', 'netrc.go', 'network.go', 'proxy.go', 'secret.go', 'volume.go', 'combine.go')], [('the loops over spec.Steps', TR + '*.go')], ['the specification afterwards'],
     note='steps are assumed to have parts of their own (no shared maps), as the compiler produces them; volume labels, volume mounts, WithVolumeSlice and Combine by bounded runs')
prop('C06', 'A configuration file is split into exactly its documents',
     'Reading the raw resources of a file returns one resource per document, in order, where a line that starts with "---" begins a new document, a line that starts with "..." ends the file, and every other line belongs to the current document verbatim (line endings become a newline). Each resource carries the kind, type and version its document declares. A file that cannot be read in full (reader failure, a line beyond the scanner limit) or holds a document that is not valid yaml is an error and nothing is returned with it, so no document and no line is ever silently dropped, moved, merged or altered.',
     ['inputs', 'fault_sequences'], 'every text and every reader, including readers that fail part way and lines of any length',
     'The tests parse two or three short files; nothing exercises over-long lines, failing readers, markers in odd positions or that every line survives verbatim.',
     ['yaml/parse.go'], [('ParseRaw scanner loop', 'yaml/parse.go'), ('isSeparator/isTerminator', 'yaml/parse.go')], ['[]*RawResource result'],
     note='scanning is specified by an independent recursive reading of the text (DocsOf); yaml.Unmarshal and bufio.Scanner are assumed contracts; ParseRawFile differs only in opening the file')
prop('C07', 'Every document becomes the resource its kind names',
     'Parsing a file gives one resource per document in order: a document of kind cron, secret, signature or registry becomes that resource and any other a pipeline, decoded from exactly that document. Every resource of a manifest has a kind; a document without a kind, a document that does not decode and a file that cannot be read in full are errors, and no manifest is returned with an error. A manifest written as JSON reads back as the same sequence of resources.',
     ['inputs'], 'every file: any number, order and mix of documents and kinds',
     'The tests parse one file per kind; order, count and kinds over all files are untested.',
     ['yaml/parse.go', 'yaml/manifest.go'], [('Parse/parseRaw', 'yaml/parse.go'), ('UnmarshalJSON', 'yaml/manifest.go')], ['Manifest.Resources'],
     note='the JSON reading and the kind checks end to end by bounded runs; the rest proved against the contract of ParseRaw')
SIGN = 'yaml/signer/signer.go'
prop('C08', 'A signature is verified exactly when it is that of the file',
     'Signing returns the hex HMAC-SHA256 under the key of all documents of the file that are not signatures, in order; verifying answers true exactly when the file holds a signature document whose hmac equals the HMAC of its other documents under the key, and false when there is none. Keys shorter than 32 bytes, files that cannot be read in full and files with a document that is not valid are errors, never a verified file. No file verifies under another key or after a document text or the hmac has been changed, added or removed.',
     ['inputs', 'fault_sequences'], 'every file and every key',
     'The tests sign two fixed files with one key; acceptance exactly for matching signatures is a statement over all files, keys and manipulations.',
     [SIGN, 'yaml/parse.go'], [('sign', SIGN), ('Sign/Verify', SIGN)], ['Sign result', 'Verify result'],
     note='hmac and hex are assumed contracts; one known finding: moving a document boundary is not detected (known_findings.json)')
prop('C09', 'Signing keeps every document and leaves one signature',
     'Updating the signature of a file (or writing it with a given hmac) keeps every document that is not a signature verbatim and in order, drops earlier signatures and appends exactly one signature document holding the HMAC of those documents. The written file verifies under the same key and signing it again changes nothing. A short key and an unreadable or invalid file are errors, and updating the signature then returns no file.',
     ['inputs', 'histories'], 'every file, any number and position of existing signatures, every key',
     'The tests update one file; that no document is lost, reordered or altered and that signing is stable is a statement over all files and repeated signing.',
     [SIGN], [('SignUpdate/WriteTo', SIGN), ('upsert/writeTo', SIGN)], ['the written bytes'])
prop('C17', 'The script of a step runs its commands, unchanged and in order',
     'A compiled step with commands runs one generated script and nothing else (posix: a file named after the step, mounted executable and run by /bin/sh; windows: an encoded powershell script); a step without commands gets no script and no file, and earlier files of the specification are kept. The script is a fixed prelude that stores the git credentials, removes them from the environment and makes the first failing command final, then for every command in order a line that prints it and the command itself verbatim. Printing a command never evaluates any part of it.',
     ['inputs', 'programs'], 'every step, any number of commands with any text (quotes, dollar signs, backticks, newlines)',
     'The tests compare one generated script; injection through the trace line and commands being lost or reordered are questions about every command text.',
     ['yaml/compiler/script.go', 'yaml/compiler/script_posix.go', 'yaml/compiler/script_win.go', STEP], [('setupScriptPosix/genScriptPosix', 'yaml/compiler/script_posix.go'), ('setupScriptWindows', 'yaml/compiler/script_win.go')], ['Spec.Files', 'Steps[].Files', 'Steps[].Docker.Command'],
     note='that the shells read the quoting as specified is not modelled')

prop('C21', 'Every step runs the image its definition names',
     'A compiled step runs the image of its definition in fully qualified form, except where a step of the same pipeline builds that image: a build step makes the image of its definition, fully qualified, under an alias that belongs to that run alone. Two image names mean the same image exactly when their fully qualified forms are equal, and a name is in a list of images exactly when it equals an entry up to the tag.',
     ['inputs', 'programs'], 'every pipeline: any number of steps, services and build steps with any image names',
     'The tests compare fixed image names and compile no pipeline with a build step; that no unrelated step is redirected to a built image is a claim about all of them.',
     [COMP, STEP, 'yaml/compiler/image/image.go'], [('the image renaming loop of Compile', COMP), ('createStep/createBuildStep', STEP), ('Expand/Trim/Match/MatchTag', 'yaml/compiler/image/image.go')], ['Spec.Steps[].Docker.Image', 'DOCKER_BUILD_IMAGE*'],
     note='parsing of references (docker/distribution) is an assumed contract: Expand and Trim are functions of the name')
prop('C22', 'No configuration crashes the reader, the linter or the compiler',
     'Parsing any bytes and linting any pipeline or manifest ends with a result or an error, never with a crash. A pipeline that the linter accepts has no empty item in its lists of steps, services, volumes, ports and mounts, and compiling a pipeline without such items never crashes and yields a specification.',
     ['inputs', 'programs', 'configurations'], 'every text, every pipeline and manifest, every compiler option',
     'The tests read well-formed files; absence of nil dereferences, bad indexes and failed type assertions is a claim about every input (an empty list item crashed the linter).',
     ['yaml/linter/linter.go', COMP, STEP, 'yaml/parse.go'], [('Lint/Manifest', 'yaml/linter/linter.go'), ('Compile and everything it calls', COMP), ('Parse', 'yaml/parse.go')], ['absence of a panic'],
     note='every dereference, index, type assertion, map write and call in the functions reached is an obligation; crashes inside yaml.Unmarshal and the other dependencies are excluded by their assumed contracts')
prop('C23', 'Short and long notation mean the same',
     'A condition written as one value or as a list includes exactly these values and excludes none, and one written with include and exclude lists keeps both, value for value. Variables, settings, ports, pushes, builds and memory sizes written in short form carry that value and nothing else, and in long form every field that is written; a node that fits none of the forms is an error (for a condition it is not). A reference to a secret stays a reference, when it is read and when it is written back, and a plain value stays that value.',
     ['inputs', 'programs'], 'every node of a document, in any of the notations, with any values',
     'The tests decode a few literals of each type; that no value, list item or field is lost or mixed up is a claim about every node.',
     ['yaml/cond.go', 'yaml/env.go', 'yaml/param.go', 'yaml/port.go', 'yaml/push.go', 'yaml/build.go', 'yaml/unit.go'],
     [('Condition/Variable/Parameter/Port/Push/Build/BytesSize decoding', 'yaml/*.go'), ('Variable/Parameter encoding', 'yaml/env.go, yaml/param.go')], ['the decoded values', 'the encoded values'],
     note='nodes are arbitrary decoders: for each type asked for they give an arbitrary value or an arbitrary error and nothing else; the yaml library itself is an assumed contract; units.RAMInBytes is a function of the text')
LEG = 'yaml/converter/legacy/internal/config.go'
prop('C24', 'Converting an old configuration loses nothing',
     'Every container of an old (0.8) configuration becomes a step or service with its name, image, flags, commands, settings, variables and conditions, deployments becoming promotions; a secret of a container becomes a variable that refers to it, named by its target in upper case. Every host path mounted by a container is declared as exactly one volume and mounted where the container asks; every external secret becomes one secret resource with its path and key. A matrix gives one row for each combination of the values of its axes (at most 27), or exactly the rows it lists.',
     ['inputs', 'programs', 'configurations'], 'every configuration: any number of containers, secrets, volumes, conditions and axes',
     'The tests compare eight files with golden output; that nothing is dropped, duplicated or swapped is a claim about every configuration.',
     [LEG, 'yaml/converter/legacy/matrix/matrix.go'], [('toContainer and the functions it calls, toSecrets, toVolumes', LEG), ('Parse/calc', 'yaml/converter/legacy/matrix/matrix.go')], ['converted steps, volumes, secrets', 'rows of the matrix'],
     note='bounded, not proved: that the volumes of all mounts are declared once, that every secret has a resource, the combinations of a matrix, and the text of the converted file')
prop('C25', 'Conversion leaves current files alone and picks the right source',
     'A configuration in the current format comes back from the converter byte for byte and without an error; one with a top-level line "pipeline:" is converted as an old configuration, and one named as the file of Bitbucket or GitLab by the converter of that system. For Bitbucket the pipeline of a matching tag pattern is chosen, else that of a matching branch pattern, else the default one, and each step keeps its name, image and script in order.',
     ['inputs', 'programs', 'configurations'], 'every text, file name and commit reference',
     'The tests convert one file per system; that no current file is ever rewritten and the right pipeline is chosen is a claim about all texts, names and references.',
     ['yaml/converter/convert.go', 'yaml/converter/legacy/match.go', 'yaml/converter/bitbucket/config.go', 'yaml/converter/bitbucket/convert.go'],
     [('Convert', 'yaml/converter/convert.go'), ('Match', 'yaml/converter/legacy/match.go'), ('Config.Pipeline', 'yaml/converter/bitbucket/config.go')], ['Convert result'],
     note='bounded, not proved: which texts count as old configurations (a regular expression) and the dispatch to the three converters')
prop('C26', 'Formatting keeps the meaning of a file',
     'Formatting a configuration file prints every resource in order, and parsing the printed text gives the same resources.',
     ['inputs', 'programs'], 'every manifest',
     'The tests compare golden output; that the printed text reads back as the same manifest is a claim about every manifest.',
     ['yaml/pretty/pretty.go'], [('Print', 'yaml/pretty/pretty.go')], ['printed text'],
     na='the claim relates the printed text to what the yaml library reads from it; that library is outside the contracts (a few thousand lines of scanner state machine) and the meaning of a printed scalar or indentation is its business, so no contract on the printer decides it')

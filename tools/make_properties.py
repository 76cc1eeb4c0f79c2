"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, pathlib

B = "python/lsst/pipe/base/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               mechanism=[dict(name=n, where=B + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Pipeline definitions survive being written and read back",
     "A pipeline that is written to YAML (or rendered as a string, or copied) and read back is equivalent to the original: same description, instrument, parameters, tasks with the same ordered config overrides, contracts, labeled subsets and step definitions, and equal under pipeline comparison. Equality is reflexive and distinguishes pipelines that differ in instrument, parameters, tasks, config overrides, contracts, labeled subsets or steps.",
     ["inputs", "histories"], "every pipeline document accepted by the parser, including ones produced by imports, merges and edits",
     "Unit tests round-trip a handful of hand-written documents, each exercising one section; loss of a section or of the order of overrides only shows for particular combinations.",
     ["pipelineIR.py", "pipeline.py"],
     [("PipelineIR.to_primitives / from_string / write_to_uri", "pipelineIR.py"), ("Pipeline.write_to_uri, fromString", "pipeline.py")],
     ["Pipeline.fromString(str(p))", "Pipeline.write_to_uri/from_uri"])

prop("C02", "Importing pipelines follows the documented include/exclude/rename rules",
     "For every tree of pipeline documents, the result of resolving imports contains exactly the tasks, config overrides, contracts, labeled subsets, steps, parameters and instrument that the documented rules give: include or exclude selects labels or subset members, renames apply to every mention of the label, the importing document overrides or extends what it imports, duplicate imported labels must be unique, and the labeled-subset modify mode decides whether subsets are dropped or edited. Invalid combinations are rejected with an error instead of being silently accepted.",
     ["inputs", "programs"], "every acyclic tree of importing documents and every combination of import options",
     "Tests contain about a dozen fixed import trees; interactions (rename with subset includes, edit mode with exclude, nested imports with parameters) are combinatorial.",
     ["pipelineIR.py"],
     [("ImportIR.toPipelineIR", "pipelineIR.py"), ("PipelineIR.process_imports / merge_pipelines", "pipelineIR.py")],
     ["Pipeline.fromFile"])

prop("C03", "Editing, subsetting and merging a pipeline does exactly what was asked",
     "Any sequence of pipeline edits (add, remove or replace tasks; add and remove labeled subsets or members; add config overrides; set parameters or instrument; merge pipelines; subset by labels) leaves the pipeline with exactly the content a simple model of those edits predicts. Subsetting keeps only the selected tasks, drops or edits labeled subsets and contracts that mention removed tasks as requested, and never changes the pipeline it was derived from or other arguments; a rejected edit leaves the pipeline unchanged.",
     ["histories", "inputs"], "every sequence of edits on every pipeline",
     "Tests run single edits on small pipelines; aliasing and leftovers appear only over sequences.",
     ["pipeline.py", "pipelineIR.py"],
     [("Pipeline edit methods", "pipeline.py"), ("PipelineIR.subset_from_labels / merge_pipelines / rename", "pipelineIR.py")],
     ["Pipeline public API"])

prop("C04", "Task configuration is the documented ordered composition of overrides",
     "The configuration a task ends up with equals the defaults with instrument overrides, then each override file, inline code and key/value override applied in the order written, with pipeline parameters substituted everywhere they may appear; later overrides win. Values given as strings are interpreted by the documented rules, and an override naming an unknown field, an ill-typed value or a failing contract is reported as an error rather than ignored.",
     ["inputs", "configurations"], "every sequence of override sources and values, over all field types",
     "Tests try a few overrides at a time; ordering and value-parsing bugs depend on the specific mix.",
     ["configOverrides.py", "pipelineIR.py", "pipeline.py", "config.py"],
     [("ConfigOverrides.applyTo", "configOverrides.py"), ("ConfigIR.formatted / maybe_merge", "pipelineIR.py"), ("PipelineTaskConfig.applyConfigOverrides", "config.py")],
     ["Pipeline.to_graph().tasks[label].config"])

prop("C05", "Pipeline-graph resolution is correct and independent of declaration order",
     "Resolving a pipeline graph assigns every dataset type the dimensions, storage class, prerequisite flag and producer implied by the task connections and the data repository, whatever the order in which tasks were added; inconsistent pipelines (two producers, conflicting dimensions, unknown components, cycles, incompatible storage classes) are always rejected. Topological order is consistent with producer/consumer edges, and queries for producers, consumers, overall inputs, inputs and outputs of a task agree with the declared connections.",
     ["inputs", "configurations"], "every set of tasks and connections and every registry state, in every order of addition",
     "Tests use one hand-built 2-task graph with permutations of registry state.",
     ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_dataset_types.py", "pipeline_graph/_edges.py", "pipeline_graph/_tasks.py"],
     [("PipelineGraph.resolve / sort", "pipeline_graph/_pipeline_graph.py"), ("DatasetTypeNode._from_edges, ReadEdge._resolve_dataset_type", "pipeline_graph/_dataset_types.py")],
     ["PipelineGraph public mappings"])

prop("C06", "Pipeline-graph mutations are atomic and leave the graph consistent",
     "After any sequence of adding, removing, reconfiguring and importing tasks and editing labeled subsets and steps, the graph equals the graph built from scratch with the surviving definitions. A mutation that raises an error leaves the graph as it was, and copies are independent of the original.",
     ["histories", "fault_sequences"], "every sequence of valid and invalid mutations interleaved with resolve, sort and copy",
     "Tests perform one mutation per test on a fixed graph and rarely look at the state after an error.",
     ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_task_subsets.py", "pipeline_graph/_tasks.py"],
     [("add_task_nodes, remove_tasks, reconfigure_tasks", "pipeline_graph/_pipeline_graph.py"), ("StepDefinitions, TaskSubset", "pipeline_graph/_task_subsets.py")],
     ["PipelineGraph public API"])

prop("C07", "Serialized pipeline graphs load back to the same graph",
     "A pipeline graph written to a file or stream, pickled or copied and loaded again has the same tasks, configurations, dataset types, edges, subsets, steps, description and sort order as the original, whether it was resolved or not, and whether or not task classes are imported on load. Exported and re-imported configurations compare equal.",
     ["inputs", "configurations"], "every pipeline graph, resolved or unresolved, in each import mode",
     "One fixture graph is round-tripped by tests.",
     ["pipeline_graph/io.py", "pipeline_graph/_pipeline_graph.py"],
     [("SerializedPipelineGraph", "pipeline_graph/io.py")],
     ["PipelineGraph._read_stream/_write_stream", "pickle"])

prop("C08", "Pipeline subset expressions select the set their algebra denotes",
     "An expression over task labels, dataset types and labeled subsets, using union, intersection, complement, parentheses and ancestor/descendant operators, selects exactly the tasks that set algebra over the pipeline's dependency graph gives. Names that do not exist, ambiguous qualifiers and malformed text are rejected.",
     ["inputs"], "every expression and every pipeline graph",
     "Tests list a few expressions against one graph.",
     ["pipeline_graph/expressions.py", "pipeline_graph/_pipeline_graph.py"],
     [("expression grammar", "pipeline_graph/expressions.py"), ("PipelineGraph.select / _select_expression", "pipeline_graph/_pipeline_graph.py")],
     ["PipelineGraph.select"])

prop("C09", "A built quantum graph contains exactly the runnable work",
     "The quantum graph built for a pipeline, a data query and a set of input collections contains exactly one quantum per task and data ID for which the query matches and all required inputs exist or will be produced, with exactly the input and output datasets the connections define, and no quantum whose required inputs cannot exist. Every dataset is produced by at most one quantum, output datasets belong to the output run and inputs resolve to the first matching collection in search order.",
     ["inputs", "configurations"], "every pipeline shape, repository content, search path and data query",
     "Tests build about ten graphs from fixed mock pipelines; missing-input patterns and dimension mixes are combinatorial.",
     ["all_dimensions_quantum_graph_builder.py", "quantum_graph_builder.py", "quantum_graph_skeleton.py"],
     [("AllDimensionsQuantumGraphBuilder.process_subgraph", "all_dimensions_quantum_graph_builder.py"), ("QuantumGraphBuilder.finish", "quantum_graph_builder.py")],
     ["PredictedQuantumGraph content"])

prop("C10", "Skip-existing and clobber decide exactly which quanta are rebuilt",
     "When building over earlier outputs, quanta that already succeeded (their metadata output exists in the skip collections) are left out and their existing outputs become inputs of downstream quanta, everything else is kept, and outputs already present in the output run are accepted only when clobbering or skipping allows it. Datasets from skipped quanta that are not retained cause exactly the upstream quanta needed to regenerate them to be kept.",
     ["histories", "configurations"], "every pipeline, every subset of pre-existing outputs in the output run or skip collections, every option combination",
     "Tests try all-or-nothing prior outputs.",
     ["quantum_graph_builder.py"],
     [("QuantumGraphBuilder._resolve_task_quanta / _skip_quantum_if_metadata_exists", "quantum_graph_builder.py"), ("retained_dataset_types handling", "quantum_graph_builder.py")],
     ["PredictedQuantumGraph content"])

prop("C11", "Task-level input adjustment prunes consistently at build and run time",
     "When a task's connections reject or reduce a quantum's inputs or outputs (minimum counts, no work found, explicit adjustment), exactly the affected quantum or datasets disappear from the graph, the removal cascades to everything downstream that needed them and to nothing else, and required prerequisites that are missing are reported as errors. The references handed to a running task match the adjusted quantum connection by connection, single or multiple, deferred or not.",
     ["inputs", "configurations"], "every connection class shape, every number of available datasets and every adjustment",
     "Tests cover one adjust hook and one missing prerequisite.",
     ["connections.py", "quantum_graph_builder.py", "single_quantum_executor.py", "connectionTypes.py", "prerequisite_helpers.py"],
     [("PipelineTaskConnections.adjustQuantum / buildDatasetRefs, AdjustQuantumHelper, QuantaAdjuster", "connections.py"), ("QuantumGraphBuilder._resolve_task_quanta", "quantum_graph_builder.py")],
     ["PipelineTaskConnections API", "built graphs"])

prop("C12", "Predicted quantum graphs survive being written and (partially) read",
     "A predicted quantum graph written to a file and read back is equivalent to the original: header, pipeline, quanta with their data IDs, input and output datasets, datastore records, dimension records and edges. Reading any subset of quanta yields exactly those quanta with identical content, and rewriting the output run renames it consistently everywhere.",
     ["inputs", "configurations"], "every graph, every subset of quanta requested, every page size and order of reads",
     "Tests round-trip a few small graphs and read one or two subsets.",
     ["quantum_graph/_predicted.py", "quantum_graph/_common.py", "quantum_graph/_multiblock.py"],
     [("PredictedQuantumGraphComponents.write, PredictedQuantumGraphReader", "quantum_graph/_predicted.py")],
     ["PredictedQuantumGraph.open/read_execution_quanta/from_old_quantum_graph"])

prop("C13", "Every record of a multi-block graph file is found by its ID",
     "For any set of record IDs and byte payloads written to the indexed block storage, looking up any stored ID in any order, alone or in bulk, returns exactly the bytes written for it, and looking up an ID that was not stored is reported as missing. Integer width, page size, compression and ID ordering or density make no difference.",
     ["inputs", "configurations"], "every set of IDs (adjacent, extreme, clustered, random), payload sizes, page sizes and lookup orders",
     "Tests use random IDs with one page size; adjacency of IDs across page boundaries has negligible probability there.",
     ["quantum_graph/_multiblock.py"],
     [("AddressReader.find, AddressWriter.write, MultiblockReader/Writer", "quantum_graph/_multiblock.py")],
     ["AddressReader / MultiblockReader"])

prop("C14", "Legacy quantum graphs agree with predicted graphs and survive all forms of I/O",
     "Converting between the legacy and the current quantum-graph forms, saving and loading (fully or by node ID), pickling and subsetting preserve quanta, node IDs, edges, init datasets, dataset types, metadata and universe. Traversal queries (inputs and outputs of a node, connected subsets, task graphs, dataset lookups) agree with the graph's edges.",
     ["inputs", "histories"], "every quantum graph and every subset of nodes",
     "Tests use one fixed graph with four tasks.",
     ["graph/graph.py", "graph/_loadHelpers.py", "graph/_versionDeserializers.py", "quantum_graph/_predicted.py"],
     [("QuantumGraph save/load/subset", "graph/graph.py"), ("PredictedQuantumGraphComponents.from_old_quantum_graph / to_old_quantum_graph", "quantum_graph/_predicted.py")],
     ["QuantumGraph public API"])

prop("C15", "Graph traversal during execution respects dependencies and covers all nodes",
     "For every acyclic graph and every interleaving of completions and failures, the traversal hands out each node at most once, only after all its predecessors finished, never hands out a descendant of a failed node, reports exactly the not-yet-blocked descendants as blocked on each failure, and terminates when every node is finished, failed or blocked. Extra ordering constraints supplied by the user are honoured in the same way.",
     ["schedules", "inputs", "fault_sequences"], "every DAG and every order of finish/fail events",
     "Tests run two fixed graphs through one schedule.",
     ["graph_walker.py", "exec_fixup_data_id.py"],
     [("GraphWalker", "graph_walker.py"), ("ExecFixupDataId.fixup_graph", "exec_fixup_data_id.py")],
     ["GraphWalker iterator protocol"])

prop("C16", "The graph executor runs everything runnable exactly once and reports it",
     "In-process or with worker processes, under any pattern of task failures, crashes and timeouts, the executor runs every quantum whose upstream quanta all succeeded exactly once and after them, never runs one downstream of a failure, and raises an error iff something failed. The execution report names every quantum with its true status, and failing fast stops launching new work.",
     ["schedules", "fault_sequences", "inputs"], "every quantum graph, failure pattern, process count and start method",
     "Tests use linear mock graphs with one failure placement.",
     ["mp_graph_executor.py", "quantum_reports.py", "quantum_graph_executor.py"],
     [("MPGraphExecutor._execute_quanta_in_process / _execute_quanta_mp", "mp_graph_executor.py")],
     ["executed-quantum history, Report"])

prop("C17", "Executing one quantum leaves exactly the promised state",
     "Executing a quantum skips it when its outputs already exist and skipping is enabled, removes stale partial outputs only when clobbering is enabled and otherwise refuses, and after success the task's outputs and its metadata are stored; when the task finds no work or reports partial outputs the quantum counts as success with the matching caveats, and on failure no metadata output is stored and the original exception reaches the caller.",
     ["histories", "fault_sequences", "configurations"], "every combination of pre-existing outputs, executor options, and ways the task can end",
     "Tests try each option alone with one failure kind.",
     ["single_quantum_executor.py", "_status.py"],
     [("SingleQuantumExecutor._execute / _check_existing_outputs / _run_quantum", "single_quantum_executor.py")],
     ["butler contents, returned report, raised exception"])

prop("C18", "A task can only read its inputs and write its outputs, faithfully",
     "Within a quantum's context a task reads only datasets that are the quantum's inputs and writes only those that are its outputs; anything else is refused. Values are delivered to and stored under the right connection and reference in order, partially filled results store exactly the provided attributes, and the datasets read are recorded as provenance of those written.",
     ["inputs", "histories"], "every sequence of reads and writes with every shape of references and values",
     "Tests do a few gets and puts with single-dataset connections.",
     ["_quantumContext.py", "connections.py", "struct.py"],
     [("QuantumContext.get/put/_checkMembership", "_quantumContext.py")],
     ["butler calls observed by a recording butler"])

prop("C19", "Provenance graphs record exactly what happened to every quantum",
     "A provenance graph written for an execution lists every predicted quantum and output dataset with its true status, attempts, exceptions, caveats, resource usage and produced flags, keeps all input/output relations, and returns the exact log and metadata stored for each quantum and attempt. Reading by any subset of IDs gives the same answers as reading everything.",
     ["histories", "inputs", "fault_sequences"], "every graph, every outcome pattern, every number of prior attempts and every partial read",
     "Tests check one small graph; several of the tests cannot pass in this environment at all.",
     ["quantum_graph/_provenance.py", "quantum_graph/formatter.py", "log_capture.py"],
     [("ProvenanceQuantumGraphWriter / Reader", "quantum_graph/_provenance.py"), ("ProvenanceQuantumScanModels", "quantum_graph/_provenance.py")],
     ["ProvenanceQuantumGraph, read_quanta, fetch_logs, fetch_metadata"])

prop("C20", "Aggregating an executed graph ingests exactly what was written",
     "After quanta have been executed against a quantum-backed store in any pattern of success, failure and not-yet-run, aggregation registers in the central repository exactly the produced datasets that are meant to be kept and no others, and (when complete) writes provenance matching the true outcomes; quanta not finished are left untouched in incomplete mode. Running aggregation again, including after an interruption, converges to the same final state.",
     ["fault_sequences", "histories", "crash_points"], "every outcome pattern, every sequence of incomplete and complete aggregation passes and every batch size",
     "The aggregator tests cannot pass in this environment and cover one graph.",
     ["quantum_graph/aggregator/_supervisor.py", "quantum_graph/aggregator/_scanner.py", "quantum_graph/aggregator/_ingester.py", "quantum_graph/aggregator/_writer.py", "quantum_graph/ingest_graph.py"],
     [("aggregate_graph", "quantum_graph/aggregator/_supervisor.py"), ("Scanner.scan_quantum", "quantum_graph/aggregator/_scanner.py"), ("ingest_graph", "quantum_graph/ingest_graph.py")],
     ["central repository contents, provenance file"])

prop("C21", "Execution reports account for every quantum and dataset exactly once",
     "Summaries of one or more attempts at the same quanta classify every expected quantum as exactly one of successful, failed, blocked, wonky or unknown and every expected output as exactly one of visible, shadowed, predicted-only, unsuccessful or cursed, consistent with what exists in the repository; totals equal expectations, and merging summaries of disjoint groups equals summarising the union.",
     ["histories", "inputs", "fault_sequences"], "every outcome pattern over one or several runs",
     "Tests examine a few crafted failure scenarios.",
     ["quantum_provenance_graph.py", "execution_reports.py"],
     [("QuantumProvenanceGraph.assemble_quantum_provenance_graph / to_summary, Summary.aggregate", "quantum_provenance_graph.py"), ("QuantumGraphExecutionReport.make_reports", "execution_reports.py")],
     ["Summary, QuantumGraphExecutionReport"])

prop("C22", "Task metadata keeps every value under its key through all representations",
     "Setting, appending, reading, listing and deleting hierarchical metadata keys behaves like a nested mapping of typed arrays: values come back with their type, in insertion order, dotted keys address nested levels, and type mixing or unsupported values are rejected without changing anything. Converting to and from dictionaries, JSON, pickle and copies preserves the content.",
     ["histories", "inputs"], "every sequence of operations with every supported value",
     "Tests check a list of example keys and values.",
     ["_task_metadata.py", "struct.py"],
     [("TaskMetadata", "_task_metadata.py")],
     ["TaskMetadata API"])

prop("C23", "Caching and in-memory dataset access is indistinguishable from direct access",
     "Reading through a caching limited butler or an in-memory dataset handle returns what a direct read of the same dataset, component, parameters and storage class would return, for any sequence of reads, writes and removals; the caller can never observe a stale, removed or corrupted value, and mutating a returned object that should be copied never affects later reads. Datasets declared uncacheable are never retained beyond the documented bounds.",
     ["histories", "inputs"], "every sequence of get/put/prune/exists operations over datasets, components, parameters and storage classes",
     "Tests do two or three reads.",
     ["caching_limited_butler.py", "_dataset_handle.py", "blocking_limited_butler.py"],
     [("CachingLimitedButler", "caching_limited_butler.py"), ("InMemoryDatasetHandle.get", "_dataset_handle.py")],
     ["LimitedButler API"])

prop("C24", "Connections configured by templates or code describe one consistent interface",
     "For every connections class and configuration, the instance exposes exactly the declared connections minus removed ones plus added ones, with dataset-type names produced by applying the configured templates and name overrides, and with one consistent listing by category; instances and classes never share mutable state, and invalid declarations or configurations are rejected when declared or configured.",
     ["programs", "configurations", "histories"], "every class hierarchy, template substitution, rename, addition and removal of connections",
     "Tests declare a handful of classes.",
     ["connections.py", "connectionTypes.py", "config.py"],
     [("PipelineTaskConnectionsMetaclass, PipelineTaskConnections.__setattr__/__delattr__", "connections.py"), ("PipelineTaskConfigMeta", "config.py")],
     ["PipelineTaskConnections instances"])

prop("C25", "Logs and earlier attempts of a quantum are kept, in order, with the right data",
     "The log stored for a quantum contains exactly the records emitted while it ran, in order and with their data-ID context, whether execution succeeds, fails or is retried; when a quantum is retried, the earlier attempts' logs and exceptions stay available in order and are never duplicated or attributed to another attempt. Nothing leaks between quanta or remains installed in the logging system afterwards.",
     ["histories", "fault_sequences"], "every sequence of attempts with every outcome and logging configuration",
     "Tests capture one quantum's log.",
     ["log_capture.py", "single_quantum_executor.py", "quantum_graph/_provenance.py"],
     [("LogCapture.capture_logging", "log_capture.py"), ("_ExecutionLogRecordsExtra", "log_capture.py")],
     ["stored log dataset"])

prop("C26", "Restarting a workflow converges to the state of one uninterrupted run",
     "For any pipeline and any pattern of failures on earlier attempts, repeatedly rebuilding the quantum graph with skip-existing (or clobbering) and executing it until nothing fails leaves the output collections with exactly the datasets, with equivalent content and input lineage, that one failure-free run would have produced. Work that already succeeded is never repeated unless asked for.",
     ["histories", "fault_sequences"], "every pipeline, every sequence of failure patterns and restart options",
     "No test runs more than two attempts or compares with an uninterrupted run.",
     ["quantum_graph_builder.py", "single_quantum_executor.py", "separable_pipeline_executor.py", "simple_pipeline_executor.py"],
     [("QuantumGraphBuilder skip/clobber logic", "quantum_graph_builder.py"), ("SingleQuantumExecutor existing-output logic", "single_quantum_executor.py"), ("SeparablePipelineExecutor", "separable_pipeline_executor.py")],
     ["final repository contents"])

prop("C27", "Init-outputs, configs and package versions are written once and stay compatible",
     "Preparing an output run registers every dataset type the pipeline needs and stores each task's configuration, init-outputs and the package versions exactly once; repeating the preparation with compatible content succeeds without change, and with different configuration, versions or incompatible dataset types is rejected without altering what is stored.",
     ["histories", "configurations"], "every sequence of preparations with equal or changed pipelines and existing contents",
     "Tests write each kind once and try one conflict.",
     ["pipeline_graph/_pipeline_graph.py", "quantum_graph/_predicted.py", "graph/graph.py", "quantum_graph/_common.py"],
     [("write_init_outputs / write_configs / write_packages", "quantum_graph/_predicted.py"), ("register_dataset_types / check_dataset_type_registrations", "pipeline_graph/_pipeline_graph.py")],
     ["repository contents"])

prop("C28", "Observation packing and instrument naming are exact and reversible",
     "Packing an in-bounds detector and visit or exposure data ID gives a distinct non-negative integer below the advertised bit width and unpacking returns the original data ID; out-of-bounds IDs are refused. Collection names and timestamps built by an instrument are deterministic and equal for equal instants regardless of representation.",
     ["inputs", "configurations"], "every data ID, bound and timestamp",
     "Tests pack a few IDs.",
     ["_observation_dimension_packer.py", "_instrument.py"],
     [("ObservationDimensionPacker", "_observation_dimension_packer.py"), ("Instrument.formatCollectionTimestamp", "_instrument.py")],
     ["pack/unpack"])

prop("C29", "Pipeline visualizations show exactly the pipeline's nodes and edges",
     "The text, dot and mermaid renderings of any pipeline or quantum graph contain every selected task and dataset type once and connect exactly those that are connected in the graph, in the right direction, and text layout draws rows in topological order. Merging of equivalent nodes or filtering by node kind never hides a connection between what is still shown.",
     ["inputs", "configurations"], "every pipeline graph and every combination of display options",
     "Tests compare a few golden strings.",
     ["pipeline_graph/visualization/_layout.py", "pipeline_graph/visualization/_printer.py", "pipeline_graph/visualization/_merge.py", "pipeline_graph/visualization/_dot.py", "pipeline_graph/visualization/_mermaid.py", "dot_tools.py", "mermaid_tools.py"],
     [("Layout", "pipeline_graph/visualization/_layout.py"), ("show_dot, show_mermaid, show", "pipeline_graph/visualization/_show.py"), ("graph2dot", "dot_tools.py"), ("graph2mermaid", "mermaid_tools.py")],
     ["rendered text parsed back into a graph"])

prop("C30", "Transferring and exporting by graph moves exactly the graph's datasets",
     "Transferring, zipping or retrieving the outputs (or inputs) of a quantum graph selects exactly the datasets the graph names that match the dataset-type filters and actually exist, puts them at the destination with identical identity and content, and updates output chains as documented; repeating a transfer changes nothing more.",
     ["inputs", "histories"], "every graph, every subset of produced outputs, every filter",
     "Script tests use one fixed graph.",
     ["script/transfer_from_graph.py", "script/utils.py", "script/zip_from_graph.py", "script/retrieve_artifacts_for_quanta.py", "graph/graph.py"],
     [("transfer_from_graph", "script/transfer_from_graph.py"), ("filter_by_dataset_type_glob / filter_by_existence", "script/utils.py"), ("QuantumGraph.get_refs", "graph/graph.py")],
     ["destination repository"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))

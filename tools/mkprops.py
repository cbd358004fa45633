"""Writes properties.jsonl (kept as python for readability)."""
import json
import os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Attribute paths split and join without loss',
     'Splitting any path string into node path and attribute name and joining the parts again gives '
     'back the same string; a path is taken for an attribute path exactly when it contains a dot that '
     'is not its last character, the attribute name is what follows the last dot, and the namespace '
     'list of an absolute node path turns back into that path.',
     ['inputs'], 'every string, every node path, every attribute name',
     'test_nxt_path checks a handful of literals; the claim is over every string.',
     ['nxt/nxt_path.py'],
     [('path_attr_partition', 'nxt/nxt_path.py'), ('make_attr_path', 'nxt/nxt_path.py'),
      ('str_path_to_node_namespace / node_namespace_to_str_path', 'nxt/nxt_path.py')],
     ['return values of nxt_path functions'])
prop('C02', 'Node path algebra is consistent',
     'For every absolute node path, parent, name, root, depth, ancestor list, ancestor test and '
     'depth-trimming agree with the path read as a list of names: joining parent and name gives the '
     'path back, the ancestors are exactly the proper non-world prefixes nearest first, one path is an '
     'ancestor of another exactly when its names are a proper prefix (the world being an ancestor of '
     'all others), and trimming to depth d keeps the first d names.',
     ['inputs'], 'every absolute node path, every pair of paths, every depth',
     'Unit tests use fixed three-level paths; names that are prefixes of one another, one-name and '
     'world paths and deep trims are not sampled.',
     ['nxt/nxt_path.py'],
     [('get_parent_path, node_name_from_node_path, get_root_path', 'nxt/nxt_path.py'),
      ('is_ancestor, all_ancestor_paths', 'nxt/nxt_path.py'),
      ('get_path_depth, trim_to_depth, join_node_paths', 'nxt/nxt_path.py')],
     ['return values of nxt_path functions'])
prop('C03', 'Relative node paths expand like directory paths',
     'Expanding a relative node path against an absolute start node processes its slash-separated '
     'parts left to right: ".." moves to the parent (never above the world), "." and empty parts stay, '
     'any other part descends to that child; an absolute path is returned unchanged, an empty one '
     'yields nothing, and the result is always a well-formed absolute node path.',
     ['inputs'], 'every relative path and every absolute start path',
     'Tests check a few literals from deep start nodes; the world as start, trailing and doubled '
     'separators and mixtures are not covered.',
     ['nxt/nxt_path.py'], [('expand_relative_node_path', 'nxt/nxt_path.py')],
     ['return value of expand_relative_node_path'])
prop('C04', 'Replacing an ancestor rewrites only that prefix',
     'Replacing an ancestor of a node path by another node path yields the new ancestor followed by '
     'exactly the names below the old ancestor, whatever names occur elsewhere in the path, also when '
     'the old or new ancestor is the world or the path is the old ancestor itself.',
     ['inputs'], 'every path, every ancestor (or self) of it, every replacement path',
     'Tests use paths whose names do not repeat; the claim is about repeated and prefix-sharing names.',
     ['nxt/nxt_path.py'], [('replace_ancestor', 'nxt/nxt_path.py')],
     ['return value of replace_ancestor'])
prop('C05', 'Stand-alone tokens are exactly the outermost tokens',
     'For every text, the stand-alone token search returns, left to right, the outermost balanced '
     '${...} spans (only those starting with one of the requested prefixes), each a piece of the text '
     'and never one nested in another, and returns nothing when a token is left unclosed; wrapping '
     'any content in token syntax and stripping it again gives the content back.',
     ['inputs'], 'every text and every set of requested token prefixes',
     'Tests list a few nestings; arbitrary interleavings of openers, closers and text are not sampled.',
     ['nxt/tokens.py'],
     [('get_standalone_tokens', 'nxt/tokens.py'), ('make_token_str / get_token_content', 'nxt/tokens.py')],
     ['return values'])
prop('C06', 'Atomic token partition is lossless and innermost',
     'For every text, the atomic token partition either finds nothing, because no opener is followed '
     'by a closer after the last opener, or returns before, token and after that concatenate to the '
     'text, where the token is well delimited and contains no further token; the set of atomic tokens '
     'only contains such innermost tokens and contains the one the partition finds.',
     ['inputs'], 'every text',
     'Tests use a few literals; the claim is over every arrangement of openers and closers.',
     ['nxt/tokens.py'], [('atomic_token_partition, get_atomic_tokens', 'nxt/tokens.py')],
     ['return values'])
prop('C07', 'Token resolution substitutes exactly the referenced values',
     'Resolving attribute text returns it with every resolvable ${attr}, ${node.attr} and relative '
     '${path.attr} token replaced by the resolved value of that attribute (nested tokens from the '
     'inside out) and every other character unchanged; text without tokens is returned as it is, and '
     'a reference to a missing node or attribute resolves to nothing, a token that plugins registered to what the first of '
     'them that takes it gives, an empty token to the bad-resolve marker (attributes that refer to one another in a circle are out of scope).',
     ['inputs', 'configurations'], 'every text and every attribute assignment of a small graph',
     'Tests resolve fixed strings in fixed graphs.',
     ['nxt/stage.py', 'nxt/tokens.py'],
     [('Stage.resolve, resolve_attr_ref_token', 'nxt/stage.py')], ['Stage.resolve', 'get_node_attr_value'])
prop('C08', 'Merging child orders loses and repeats nothing',
     'Merging two non-repeating lists of names gives a non-repeating list holding exactly the names of '
     'both, in which the names of the base list keep their relative order; an overlay that adds no new '
     'name leaves the base unchanged, and neither input list is modified.',
     ['inputs'], 'every pair of non-repeating lists',
     'Tests merge about ten fixed pairs; equality patterns between the lists are what matters.',
     ['nxt/nxt_node.py'], [('list_merger', 'nxt/nxt_node.py')], ['return value of list_merger', 'child order of comp nodes'])
prop('C09', 'The strongest active layer decides every opinion',
     'In a composite graph, a node exists exactly if an active layer defines it, and the value, type and '
     'comment of each attribute, and its code, enabled state, execute-in and comment, are those of the '
     'strongest (topmost) active layer that has an opinion on it (a value, code or comment of None or of '
     'no lines is no opinion); weaker and inactive layers never show through a stronger opinion and the '
     'source reported names that layer.',
     ['configurations', 'inputs'], 'every arrangement of opinions over a stack of layers, every value',
     'Tests load a few fixed layer stacks.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('build_stage, comp_pre_proxies, post_proxy_comp', 'nxt/stage.py')],
     ['attributes of nodes of the comp layer'])
prop('C10', 'Mute and solo select the contributing layers',
     'The layers that contribute are exactly the un-muted ones, restricted to the soloed ones when any '
     'layer is soloed, in the given order; a layer counts as muted or soloed by the override of its '
     'topmost ancestor layer that has one and otherwise by its own flag, and setting an override on a '
     'layer affects only the targeted layer and flag.',
     ['configurations', 'histories'], 'every combination of flags and overrides over a layer chain',
     'Tests mute and solo one layer at a time.',
     ['nxt/nxt_layer.py'],
     [('get_active_layers, get_muted, get_soloed, get_comped_layer_overs', 'nxt/nxt_layer.py')],
     ['get_active_layers', 'get_muted', 'get_soloed', 'which nodes are in the comp'])
prop('C11', 'Local, then inherited from parent, then instanced',
     'A node of the composite graph shows, for each user attribute, its own opinion if it has one, else '
     'that of its nearest ancestor with one, else that of its instance source (which itself follows '
     'these rules; an ancestor the two share comes after the source); code, comment and enabled state '
     'never come from the parent but do come from the instance source.',
     ['configurations', 'inputs'], 'every placement of opinions over parents, instance sources and layers',
     'Tests check a few fixed graphs.',
     ['nxt/stage.py'],
     [('post_proxy_comp, update_inherited_attrs, CompArc', 'nxt/stage.py')], ['attributes of comp nodes'])
prop('C12', 'Instancing mirrors the whole source subtree',
     'A node that instances another has, in the composite, a node for every descendant of the source '
     'under the same relative path, each having the source\'s descendant as its instance source: it shows '
     'that descendant\'s attribute values and code except where it or its own ancestors hold stronger '
     'opinions; chains of instances compose and an instance that would contain itself does not make '
     'composition diverge.',
     ['configurations', 'inputs'], 'every small graph with instance paths',
     'Tests check fixed graphs, chains up to a fixed length.',
     ['nxt/stage.py'],
     [('discover_proxies, comp_proxies, create_instance_node', 'nxt/stage.py')],
     ['descendants of comp nodes', 'attributes of proxies'])
prop('C13', 'Execution order visits enabled nodes once, parents first',
     'The execution order from a start node lists each enabled node of the start root (from the start '
     'on) and of the roots chained to it by execute-in exactly once, a parent before its children, '
     'siblings in child order, roots in chain order; a disabled node is left out together with all its '
     'descendants, and the computation ends for every chain, cyclic ones included.',
     ['configurations', 'inputs'], 'every small hierarchy, child order, enabled flags and execute-in chain',
     'Tests compare a few fixed graphs; cycles and disabled starts are not covered.',
     ['nxt/nxt_layer.py', 'nxt/stage.py'],
     [('get_exec_order, get_root_exec_order, _ordered_descendants', 'nxt/nxt_layer.py')],
     ['get_exec_order', 'order of executed nodes'])
prop('C14', 'Saving and loading a layer keeps everything',
     'Loading the data a layer saves yields a layer with the same nodes, the same attribute values, '
     'types and comments, code, enabled, execute-in, instance, child order, start points and comments, '
     'the same references, alias, colour, lock, mute, solo and layer overrides, and saving it again gives '
     'the same data (None and an empty list of code or execute-in are no opinion and need not be kept). The '
     'saved record of a run (cache layer) likewise gives back the code and the final attribute values of every '
     'node that ran. A value that can not be saved is left out, anything else that can not be saved leaves the '
     'file as it was.',
     ['inputs', 'histories'], 'every layer content, including empty, zero and false attribute values',
     'Tests round-trip a few files; falsy values and absent sections are not covered.',
     ['nxt/nxt_layer.py', 'nxt/nxt_node.py'],
     [('get_save_data, get_nodes_save_data, SpecLayer.__init__', 'nxt/nxt_layer.py'),
      ('get_node_as_dict, create_spec_node', 'nxt/nxt_node.py')],
     ['saved data', 'attributes of the re-loaded layer'])
prop('C15', 'Rename and reparent move a subtree as a whole',
     'Renaming or reparenting a node moves it and all its descendants to the new path with all their '
     'data, leaves every other node of the layer untouched, never overwrites an existing node, and '
     'keeps each layer\'s path-to-node and node-to-path maps inverse to one another and its child '
     'orders naming the moved child under its new parent and name only (node names are legal and the new '
     'parent is not below the moved node).',
     ['inputs', 'histories'], 'every small hierarchy, every choice of node, name and new parent',
     'Tests rename a few fixed nodes.',
     ['nxt/stage.py'], [('set_node_name, parent_nodes', 'nxt/stage.py')],
     ['spec layer contents after the edit'])
prop('C16', 'Generated names are legal and unique',
     'A generated node name is legal (letters, digits and underscores, not starting with a digit), '
     'differs from every existing sibling, and is the requested (non-empty) name itself when that is '
     'legal and free; a generated attribute name is likewise unused on the node, and asking never fails to end.',
     ['inputs', 'configurations'], 'every requested name and every set of existing siblings',
     'Tests create a few nodes named node, node1, ...',
     ['nxt/stage.py'], [('legalize_name, get_unique_node_name, get_unique_attr_name', 'nxt/stage.py')],
     ['returned names', 'names of added nodes'])
prop('C17', 'Run parameters reach exactly the named attributes',
     'Parameters given to a run set exactly the named attribute of exactly the named node in the '
     'runtime graph to the given value, for existing and for not yet existing attributes, leave all '
     'other attributes as composed and never change the layers the graph was composed from; the '
     'command line pairs arguments as path followed by value in order.',
     ['inputs'], 'every list of parameter paths and values',
     'Tests pass one or two fixed parameters.',
     ['nxt/stage.py', 'nxt/cli.py'],
     [('set_runtime_parameters, setup_runtime_layer', 'nxt/stage.py'), ('cli parameter parsing', 'nxt/cli.py')],
     ['attributes in the runtime layer', 'parsed parameters'])
prop('C18', 'Execution runs each node once with its resolved attributes',
     'Executing a graph runs the code of the nodes of the execution order once each and in that order, '
     'each seeing its own composed attributes, text that is a Python literal as the value it says and '
     'other text as it is; changes a node makes to its attributes are seen by the '
     'nodes that reference them later, an exit-node request ends only that node and an exit-graph '
     'request ends the run, and neither changes the source layers. A run starts at the node asked for '
     'by path, at the start point asked for by index, or else at the first start point; the variables '
     'of one node\'s code are not seen by the code of another, and code that runs other nodes through '
     'execute goes on as its own node afterwards.',
     ['programs', 'inputs'], 'every small graph whose nodes set attributes, exit the node or the graph',
     'Tests execute a few fixed graphs.',
     ['nxt/stage.py', 'nxt/runtime.py'], [('execute, execute_nodes, run', 'nxt/stage.py')],
     ['runtime layer and cache layer after a run'])
prop('C19', 'Old graph files convert without loss, newer ones are refused',
     'Loading graph data of an older supported version yields current-version data holding every node '
     'of the input (in files before 1.0: every node its parent\'s execute order lists) under its path with '
     'its attribute values and code; current data is returned '
     'unchanged, and data of a newer major or minor version is refused rather than misread. The convert command writes such '
     'data next to the file, which it leaves alone, or in its place when asked to.',
     ['inputs'], 'every version number and every small file content',
     'Tests convert fixed legacy files.',
     ['nxt/legacy.py', 'nxt/nxt_io.py', 'nxt/constants.py'],
     [('FileConverter and converters', 'nxt/legacy.py'), ('load_file_data', 'nxt/nxt_io.py'),
      ('cli_file_convert', 'nxt/legacy.py')],
     ['data returned by loading'])
prop('C20', 'File references are searched in order of strength',
     'A file reference expands to the first existing file, looked for in each file root in its order and '
     'then in the directory of the layer that gives the value; when the value of the strongest active layer '
     'names no existing file, that of the next weaker composition is tried, and so on, and a file list '
     'gives all of them in that order without repeats. References inside a value resolve in the context of '
     'the node they were written for. The working directory is left as it was, also when expansion fails, '
     'and environment variables written in either platform style are treated alike.',
     ['inputs', 'configurations'], 'every path text and every pattern of existing candidates',
     'Tests use a fixed directory layout.',
     ['nxt/nxt_path.py', 'nxt/plugins/file_fallbacks.py'],
     [('full_file_expand, unify_env_vars', 'nxt/nxt_path.py'),
      ('file_root_fallback', 'nxt/plugins/file_fallbacks.py')], ['resolved paths'])
prop('C21', 'Alias, colour and lock overrides are set and cleared',
     'A layer\'s alias, colour and lock as seen through overrides are those its topmost ancestor layer '
     'with an override for it gives, and its own otherwise; setting an override changes only that '
     'layer\'s value of that kind, and clearing it restores what was seen before (overrides are set on a '
     'layer by one of its ancestor layers).',
     ['configurations', 'histories'], 'every sequence of set and clear operations on a layer chain',
     'Tests set one override.',
     ['nxt/nxt_layer.py'], [('_get_meta_attr, set_alias_over, set_color_over, set_locked_over', 'nxt/nxt_layer.py')],
     ['get_alias, get_color, get_locked'])
prop('C22', 'Node timings cover exactly the execution intervals',
     'After any sequence of node enters and exits, a node\'s run time is its exit time minus its enter '
     'time for the requested run, an instant counts as within node execution exactly when some recorded '
     'interval (closed, or still open) contains it, and exiting a node never entered is reported as an '
     'error (a node is not entered again while it runs).',
     ['histories', 'inputs'], 'every sequence of enter and exit events and every instant',
     'The tests time one run.',
     ['nxt/nxt_layer.py'],
     [('set_node_enter_time, set_node_exit_time, get_node_run_time, was_during_node_exec', 'nxt/nxt_layer.py')],
     ['return values'])
prop('C23', 'Children, descendants and ancestors queries agree with the paths',
     'For every layer, the children of a path are exactly the nodes whose path is one name longer, the '
     'descendants exactly those below it (reached through existing nodes, unless implied paths are asked '
     'for), in every return form and whatever was asked before (cached or not); ordered queries of '
     'existing nodes list children in child order and lose none, and implied queries add exactly the '
     'missing intermediate paths. The ancestors of a node are the nodes above it, nearest first, in every form.',
     ['configurations', 'histories'], 'every small set of node paths, every query sequence',
     'Tests query fixed graphs in one form.',
     ['nxt/nxt_layer.py'], [('children, descendants, ancestors, child cache', 'nxt/nxt_layer.py')],
     ['return values of children and descendants'])
prop('C24', 'Everything depending on a node is reported dirty',
     'The nodes reported as depending on a node are exactly those other nodes reachable through recorded '
     'dependencies, each once, and the query ends for every dependency graph, cyclic ones included.',
     ['configurations'], 'every dependency relation over a few nodes',
     'Tests check fixed graphs without cycles.',
     ['nxt/nxt_layer.py', 'nxt/stage.py'],
     [('get_node_dirties', 'nxt/nxt_layer.py'), ('extend_dirty_map, remove_from_dirty_map', 'nxt/stage.py')],
     ['get_node_dirties'])
prop('C25', 'Incremental edits equal a full recomposition',
     'After setting or deleting attributes, code, the enabled state or the child order of a node on any '
     'layer of a graph - instances included - and, on graphs without instances, after adding nodes or '
     'hierarchies of nodes and deleting nodes with or without their descendants, the composite kept up to '
     'date by the stage has the same nodes, children, attribute values (and where they come from), code, enabled '
     'states and ordered children as one built from scratch from the same layers (as long as no node is left below a missing '
     'one; a new node may be listed last until the graph is composed again).',
     ['histories', 'configurations'], 'every short edit sequence on a small graph',
     'Tests apply fixed edits to fixed graphs.',
     ['nxt/stage.py'],
     [('targeted_comp_pre_proxies, targeted_comp_proxies, ripple_delete, targeted_uncomp', 'nxt/stage.py')],
     ['comp layer after the edit vs build_stage'])
prop('C26', 'IPC messages arrive whole',
     'Every log record framed for the parent process is decoded by the receiving side to the same '
     'record, in order, however the byte stream is cut into reads and however many records follow one '
     'another; a stream that ends inside a record ends the receiver without a partial record. A socket '
     'message goes out whole, as a fixed-size header giving its length followed by its bytes.',
     ['inputs', 'schedules'], 'every message text and every split of the byte stream',
     'No test sends a message.',
     ['nxt/remote/nxt_socket.py', 'nxt/nxt_log.py'],
     [('format_msg, send_to_server', 'nxt/remote/nxt_socket.py')], ['bytes sent'])
prop('C27', 'Adding and removing layers keeps the stack in order',
     'Loading a file stacks the layers it references depth-first, each below the layer that references '
     'it and in reference order, a reference that leads back to a file above it is left out, and a file that can '
     'not be loaded leaves the working directory as it was; adding a layer at an index puts it at that place with the layers it '
     'references below it, removing a layer removes exactly it and the layers it brought in, the '
     'remaining layers keep their relative strength, and saving the layers and loading them again gives '
     'the same stack (no file occurring twice in it).',
     ['configurations', 'histories'], 'every small reference tree and every insert or remove position',
     'Tests add one layer.',
     ['nxt/stage.py'], [('new_sublayer, remove_sublayer, add_reference', 'nxt/stage.py')],
     ['order of the stage\'s layers'])

prop('C28', 'Child orders compose without loss',
     'The child order of a layer\'s node keeps the names it was given in their order, each once, and lists every '
     'child the layer holds; that of a composite node holds exactly the names the active layers and its instance '
     'source list for it, each once, keeps the order of the strongest layer that has the node (weaker orders '
     'without new names change nothing, one new name behind the names both orders begin with goes there), shows the order of its source where the node only mirrors it, and '
     'ordered child queries give the existing children in this order; reverting a layer\'s order gives the '
     'children that layer holds in composed order (the order of the root nodes is not judged).',
     ['inputs', 'configurations'], 'every set of children on up to 3 layers and every listed order, also through instances',
     'Tests compose one or two fixed orders.',
     ['nxt/stage.py', 'nxt/nxt_node.py'],
     [('comp_pre_proxies, discover_proxies, get_comp_child_order, get_reverted_child_order', 'nxt/stage.py'),
      ('create_spec_node, list_merger', 'nxt/nxt_node.py'), ('CompLayer.children', 'nxt/nxt_layer.py')],
     ['child orders of the composite nodes, ordered children'])

prop('C29', 'Attribute edits, transfers and duplicates change exactly what they name',
     'Adding, setting, renaming or deleting an attribute of a node on a layer, muted or not, changes exactly that '
     'attribute: an added one gets a name unused on that node (the one asked for when free) with the given value and '
     'comment, setting a value or a comment leaves the other as it is, an emptied value is no opinion any more, a '
     'renamed one keeps value, comment and type, a deleted one leaves nothing behind. Transferring data onto a node '
     'gives it the attribute values and comments, code, comment, enabled state and execute-in the source shows and '
     'leaves the rest of it, its name and its place alone; duplicating a node (with its descendants) adds an equal '
     'copy beside it under a free name; after either, editing one side never changes the other, and no other node '
     'or layer changes.',
     ['inputs', 'histories'], 'every edit of every attribute on small nodes, every transfer and duplicate of small trees',
     'Tests add one attribute.',
     ['nxt/stage.py', 'nxt/nxt_node.py', 'nxt/nxt_layer.py'],
     [('add_node_attr, rename_node_attr, delete_node_attr, node_setattr_data', 'nxt/stage.py'),
      ('transfer_node_data, set_node_data, get_node_data, duplicate_node', 'nxt/stage.py'),
      ('get_node_as_dict', 'nxt/nxt_node.py'), ('get_node_local_attr_names', 'nxt/nxt_layer.py')],
     ['attributes and internal attributes of the layers\' nodes'])

prop('C30', 'Opinions are traced to where they come from',
     'Asked for the history of a user attribute of a composite node, the stage lists every opinion on it once, '
     'strongest first and with its value, layer and node: those of the node itself, strongest layer first, then '
     'those it would inherit or instance in the order in which they would take over (without the own opinion '
     'unless it is asked for). The layers said to hold a node, or an opinion on one of its attributes, are exactly '
     'those that do, strongest first; a stronger opinion is reported for a layer exactly if an active layer above '
     'it has one; and the external sources of an attribute or of code are exactly the attributes of nodes its '
     'attribute references name, as absolute paths.',
     ['inputs', 'configurations'], 'every distribution of opinions over small hierarchies, instances and layers',
     'Tests look at the history of one node.',
     ['nxt/stage.py', 'nxt/nxt_node.py'],
     [('get_historical_opinions, get_layers_with_opinion', 'nxt/stage.py'),
      ('get_node_attr_external_sources, get_node_code_external_sources, get_tokens_from', 'nxt/stage.py'),
      ('has_stronger_opinion', 'nxt/nxt_node.py')],
     ['lists of opinions, layers and attribute paths'])

prop('C31', 'A temporary copy of a graph is the same graph',
     'Saving a whole composite to a directory (save_to_temp) writes all its layers into that directory and nothing '
     'elsewhere, whatever directories and names their files have, and leaves graph and files as they are. Loading '
     'the returned file gives as many layers in the same order and below the same parents, each with the same '
     'nodes, the same effective mute, solo, lock, alias and colour (own or by override) and the directory of the '
     'original as its working directory, and a composite with the same nodes and values.',
     ['inputs', 'configurations'], 'every tree of references over files of like names in several directories, every '
     'override', 'No test saves a temporary copy.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('save_to_temp, load_from_file', 'nxt/stage.py'), ('get_save_data, get_cwd, get_meta_data', 'nxt/nxt_layer.py')],
     ['layers and composite of the loaded copy'])

prop('C32', 'A session keeps every open graph apart',
     'Whatever graphs are created, opened, renamed and closed, and however fast, a session holds each graph that '
     'was opened and not closed under an id of its own, also two of one file; closing one removes exactly that one '
     'and closing one that is not open is an error that changes nothing; a file that fails to open adds nothing; '
     'and a new graph gets a name no open graph has, the usual one if it is free.',
     ['histories', 'inputs'], 'every short history under every clock', 'Tests open one file.',
     ['nxt/session.py', 'nxt/stage.py'],
     [('new_file, get_unused_graph_name, load_file, unload_file', 'nxt/session.py'), ('Stage.__init__', 'nxt/stage.py')],
     ['loaded_files and graph names'])

prop('C33', 'Node code leaves behind exactly the globals it declares',
     'Whatever names the code of a node assigns, the code that runs after it sees those it declared global and '
     'assigned, each with its value, together with what was global before, and none of its other variables: with '
     'one or several names per global statement, on any indentation, names that contain one another, statements '
     'that are commented out, and however the node ends (normally, by an exit request, by an error, as custom code).',
     ['inputs', 'histories'], 'all declarations and assignments of names', 'A test shares one module between two nodes.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('run, clean_globals', 'nxt/stage.py'), ('Console.runcode', 'nxt/runtime.py')],
     ['names visible to the next node'])

prop('C34', 'Errors name the node and line that failed',
     'When the code of a node fails, the run ends with a graph error that names the layer that runs, the path of the '
     'node and the number and text of the line of the code as it runs (references resolved, which may add '
     'lines), and ends with the original error: wherever the line is, whatever is above it, for errors raised there, in a '
     'function called there or in a node run from there, syntax errors, code of instances, of the world and custom code.',
     ['inputs'], 'every layout of the code around the failing line', 'Tests look at two fixed files.',
     ['nxt/stage.py', 'nxt/runtime.py'],
     [('get_node_code, get_node_code_lines, run, execute_custom_code', 'nxt/stage.py'),
      ('Console.runcode, GraphError, GraphSyntaxError', 'nxt/runtime.py')],
     ['text of the error'])

prop('C35', 'A graph runs in a remote context as it runs here',
     'Running a graph through a remote context (whichever interpreter and further arguments it has), through a sub-graph '
     'node or through a remote sub-graph node runs the same nodes in the same order with the same values as running it in '
     'this interpreter with the same parameters and the same start (by path or by index), however the run ends (normally, '
     'exit-node or exit-graph request); the returned cache holds the values its nodes were left with and the '
     'attributes of the world set in the run come back to the calling node; an unknown context is refused before anything '
     'runs.',
     ['inputs', 'histories'], 'every combination of route, context, start, parameters and way to end',
     'No test runs a graph in a remote context with parameters, a start and an early end together.',
     ['nxt/session.py', 'nxt/remote/server.py', 'nxt/builtin/_context.nxt', 'nxt/builtin/sub_graphs.nxt',
      'nxt/builtin/remote_contexts.nxt', 'nxt/cli.py'],
     [('Session.execute_graph', 'nxt/session.py'), ('ServerFunctions.exec_in_headless', 'nxt/remote/server.py'),
      ('/enter, /enter/call_graph', 'nxt/builtin/_context.nxt'), ('/_sub_graph', 'nxt/builtin/sub_graphs.nxt'),
      ('/_remote_sub_graph', 'nxt/builtin/remote_contexts.nxt'), ('execute', 'nxt/cli.py'),
      ('CacheLayer.save, load_from_filepath', 'nxt/nxt_layer.py')],
     ['nodes run and values seen', 'returned cache', 'command line of the started process'])
prop('C36', 'Logs hold and show what was asked for',
     'After any history of verbosities messages are shown on the error stream as the last one says: none, those about '
     'execution and the more severe ones, or all of them, each once. A session log holds every message sent while it is '
     'open, once, and none sent before or after. Tracking a log removes the tracked logs that are older than two days and no '
     'other file, forgets those that are gone and keeps the rest.',
     ['inputs', 'histories'], 'every age of the logs, every history of verbosities and of logs opened and closed',
     'Nothing in the suite looks at verbosity or at the removal of logs.',
     ['nxt/nxt_log.py'],
     [('set_verbosity, initial_setup', 'nxt/nxt_log.py'), ('make_session_log, stop_session_log', 'nxt/nxt_log.py'),
      ('track_log_file', 'nxt/nxt_log.py'), ('NXTLogger', 'nxt/nxt_log.py')],
     ['files and their content', 'handlers of the logger'])
prop('C37', 'Custom contexts can be used once they are made',
     'A context made with nxt.create_context can be found by the name it was given, at once and in every later session, with '
     'the interpreter and the further arguments it was given, whatever characters are in them, next to all contexts made '
     'before and after; its graph is there wherever a run is started: the very graph that was given, or a new one next to the '
     'plugin that can be started and calls the graph to be run, the one made for the interpreter where nxt has one. Making one '
     'touches no file that was there. An empty name, one that is taken and a graph that does not exist are refused, and '
     'then nothing is written or registered.',
     ['inputs', 'histories'], 'every combination of name, interpreter, arguments and graph, one or two contexts, in one session or two',
     'No test makes a custom context.',
     ['nxt/__init__.py', 'nxt/remote/contexts.py', 'nxt/remote/remote_context_template.py'],
     [('create_context', 'nxt/__init__.py'), ('register_context, find_context_by_name', 'nxt/remote/contexts.py'),
      ('generated plugin', 'nxt/remote/remote_context_template.py'),
      ('/enter, /enter/call_graph', 'nxt/builtin/_context.nxt')],
     ['found context', 'files of the plugin folder', 'error raised'])
prop('C38', 'Settings of a node hold for the whole stack',
     'After setting or taking away the comment, execute-in, start point or instance of a node on any layer, the layer holds and '
     'saves just that, every other setting and layer is as it was, and the composite built then has the nodes, values, settings '
     'and sources of each, start points and execution orders that the same layers give when they are loaded: the strongest '
     'layer that says something wins, an inherited instance stays inherited, and the source of an instance is found from '
     'a relative path as from an absolute one.',
     ['histories', 'configurations'], 'every short sequence of settings on any layer of a small graph, with every earlier state of them',
     'Tests set these on fixed graphs of one layer.',
     ['nxt/stage.py', 'nxt/nxt_layer.py'],
     [('set_node_comment, set_node_exec_in, set_node_instance_path, node_setattr_data, get_layer_start_nodes, '
       'safe_get_node_instance, build_stage', 'nxt/stage.py'),
      ('get_nodes_save_data, get_exec_order', 'nxt/nxt_layer.py')],
     ['composite built after the edit vs build_stage of the same data', 'saved nodes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

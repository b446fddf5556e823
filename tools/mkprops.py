import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Documents survive writing and reading back unchanged',
 'Writing any ResourceSync document (source description, capability list, resource list, change list, dump, dump manifest or index) as XML and reading it back gives the same top-level metadata and links and the same resources in the documented order, each with the same URI, times to the microsecond, length, hashes, media type, change, path, capability and links. What is written is a well-formed sitemap or sitemapindex with every value under its ResourceSync name, and writing what was read reproduces the same document. This holds for every spec version, with and without pretty printing (each top-level element on a line of its own, or all on one) or added lastmod (which, like spec 1.0, shows the datetime as lastmod when there is none and, in 1.0, writes no datetime), for string, file handle and file output, and for URIs and values with any characters legal in XML.',
 ['inputs','configurations'],'every list type, every combination of set fields, any legal characters, spec 1.0/1.1, pretty_xml, add_lastmod, output route',
 'Tests compare a handful of fixed documents with fixed strings (and the exact-XML ones do not pass here); they cannot reach combinations of fields, special characters or microsecond times.',
 ['resync/sitemap.py','resync/list_base.py','resync/resource.py','resync/resource_container.py','resync/source_description.py','resync/capability_list.py'],
 [('serialisation of a list and of one entry','resync/sitemap.py resources_as_xml, resource_etree_element'),('parsing','resync/sitemap.py parse_xml, resource_from_etree, md_from_etree, ln_from_etree'),('canonical order of capabilities','resync/capability_list.py CapabilitySet')],
 observe=['as_xml()','write()','parse()','read()'])

p('C02','W3C datetimes denote the same instant in text and as numbers',
 'Every instant on the microsecond grid is shown as a UTC W3C datetime that denotes exactly that instant and is parsed back to it, and the whole-second form is the same instant without its fraction. Parsing accepts exactly the W3C forms (YYYY, YYYY-MM, YYYY-MM-DD, and date with hh:mm or hh:mm:ss and optional fraction followed by Z or an offset), gives the instant each denotes, and refuses every other string, missing zones and out-of-range fields included, with ValueError. Each time of a resource (lastmod, datetime, at, completed, from, until), whether set as text or number or given to its constructor, is kept apart from the others.',
 ['inputs'],'instants 1970-2100 to the microsecond; strings of all six forms with any fraction and offset; edited and out-of-range strings',
 'Tests try about 40 fixed strings; neither float rounding of microseconds nor field ranges can be sampled by hand.',
 ['resync/w3c_datetime.py','resync/resource.py'],[('formatting','resync/w3c_datetime.py datetime_to_str'),('parsing','resync/w3c_datetime.py str_to_datetime'),('accessors','resync/resource.py lastmod, datetime, md_at, md_completed, md_from, md_until')])

p('C03','Resource equality means no proof of difference; a resource keeps its values',
 'Two resources are equal exactly when their URIs are the same, their timestamps are both absent or less than a second apart (or than the given tolerance, identical ones always being equal), and no length or hash known for both differs; equality is reflexive and symmetric and ignores everything else. A resource made from another, or from keyword arguments, has the same values, with later arguments taking precedence, and setting any field of one does not change the other; its hash attribute shows the md5, sha-1 and sha-256 it holds and setting it sets exactly the listed ones; setting or replacing a link touches that link only. Only created, updated and deleted (or nothing) are accepted as a change; any other value raises ChangeTypeError.',
 ['inputs','histories'],'pairs and sequences of operations on resources with any combination of fields',
 'Tests fix about ten pairs; symmetry, tolerance boundaries and independence of copies need arbitrary pairs and operation orders.',
 ['resync/resource.py'],[('equality','resync/resource.py equal, __eq__'),('hash string','resync/resource.py hash'),('links','resync/resource.py link_add, link_set, _set_or_ad'),('change types','resync/resource.py change setter')])

p('C04','Comparing resource lists partitions them and the changes reproduce the source',
 'Comparing a destination list with a source list puts every resource of either into exactly one of same, updated, deleted and created: same and updated are the URIs in both, equal or not; deleted those only in the destination; created those only in the source; updated and created carry the source description and deleted the destination one, and neither input list changes. Applying the reported changes to the destination gives a list that compares as all same with the source. A change list built from the comparison, and the one the client writes, lists exactly these changes with the right change type.',
 ['inputs'],'pairs of lists over overlapping URIs in either storage class and any insertion order, with differing fields',
 'Tests compare three or four fixed lists of single-letter URIs; the merge loop has boundary cases for every relative order of ends.',
 ['resync/resource_list.py','resync/change_list.py','resync/client.py'],[('merge of two sorted iterations','resync/resource_list.py compare'),('change list from a comparison','resync/change_list.py add_changed_resources'),('client change list','resync/client.py write_change_list')])

p('C05','Splitting a large list over sitemaps loses, repeats and reorders nothing',
 'A list of more than the maximum number of entries is written as an index and as many component documents as needed, each with at most the maximum number of entries, in order, none empty; the index lists them under the URIs the mappings give to their files, each with the md5 and modification time of its file, and each component links to the index; a list at or below the maximum is written as one document. Reading the index back, from files through the mappings or from the web, gives exactly the entries, metadata and links of the list, in order for change lists. With multi-file support off both writing and reading such a list are refused, and the in-memory index and parts agree with the written ones; a part beyond the last is refused.',
 ['inputs','configurations'],'numbers of entries around multiples of the maximum, maxima from 1, file and web reading, list types, mapping',
 'Tests use two or three sizes; off-by-one errors live at multiples of the maximum and at 1.',
 ['resync/list_base_with_index.py','resync/list_base.py'],[('chunking','resync/list_base_with_index.py write, get_resources_chunk, as_xml_part, requires_multifile'),('reading an index','resync/list_base_with_index.py read, read_component_sitemap')])

p('C06','Baseline synchronization makes the destination equal the source',
 'After a baseline synchronization with deletion allowed, the files below the destination are exactly the resources of the source list, mapped by the mappings, with the same content and (where given) modification time, whatever was there before; without deletion, other files stay as they were. Only resources that are missing or differ are fetched, each once, and the status line counts created, updated, deleted and unchanged as they were. A second run, and an audit, then find source and destination in sync and fetch and change nothing.',
 ['inputs','histories','configurations'],'source trees and earlier destination trees with shared, changed, missing and extra files; http and file sources; one or several mappings; with/without hashes, delete, index',
 'Client tests mostly call methods with mocks or one fixed resource; no test runs a whole synchronization against arbitrary earlier state.',
 ['resync/client.py','resync/resource_list_builder.py','resync/resource_list.py','resync/mapper.py'],[('baseline_or_audit','resync/client.py'),('update_resource and delete_resource','resync/client.py'),('scan of the destination','resync/resource_list_builder.py')],
 state=[('destination tree','files with content and mtime','local file system'),('status file','time of the last synchronization per source','client state file')])

p('C07','Audit and dry run change nothing; without delete nothing is deleted',
 'An audit, and any baseline or incremental synchronization as a dry run, leaves the destination tree (files, directories, contents, times) and the stored synchronization state exactly as they were and fetches the content of no resource. An audit reports exactly the numbers of resources created, updated and deleted that a comparison of source and destination gives, and whether they are in sync. Unless deletion is asked for, no baseline or incremental synchronization removes a local file.',
 ['inputs','histories','configurations'],'source and destination states; audit, dry run and no-delete runs of baseline and incremental',
 'No test looks at the destination after an audit or dry run.',
 ['resync/client.py'],[('dry run guards','resync/client.py update_resource, delete_resource'),('audit branch','resync/client.py baseline_or_audit, incremental')])

p('C08','Baseline followed by incrementals tracks every history of the source',
 'For every history of creations, updates and deletions at a source that publishes a resource list and change lists, a baseline synchronization followed by incremental ones (from the stored time, a given time, or a change list given explicitly) leaves in the destination exactly the state of the source at the last one, and running another incremental then changes nothing. Each incremental applies the changes at or after the stored or given time and none before it, in order, stores the time of the latest change in the list, and reports the number of changes of each kind and whether they were applied; without either time, or when the change list has no usable times (or is an index although those are not allowed), it fails rather than guesses.',
 ['histories','inputs'],'histories of 0-12 changes to a handful of resources interleaved with published change lists and synchronizations',
 'No test runs baseline and incremental in sequence; only histories show a change lost between two runs or applied in the wrong order.',
 ['resync/client.py','resync/change_list.py','resync/client_state.py'],[('incremental','resync/client.py'),('pruning of old and duplicate changes','resync/change_list.py prune_updates_before, resync/resource_container.py prune_dupes'),('state of the last synchronization','resync/client_state.py')])

p('C09','Download failures are retried, reported and never leave a later sync wrong',
 'A resource whose download times out is retried up to the configured number of tries and any other failure is not; when it cannot be fetched the synchronization aborts with an error and stores no time, or with failures ignored carries on with every other resource and still updates them. For any sequence of such faults the files of resources not being synchronized at that moment are untouched, a failure before any content arrives leaves the earlier copy of the resource, and a later synchronization without faults makes the destination equal the source. A source list or description that cannot be read or parsed, or lists nothing, aborts the synchronization before any file is touched.',
 ['fault_sequences','inputs'],'per-resource sequences of timeouts, connection errors, HTTP errors and connections lost part-way, over baseline and incremental',
 'One mocked test covers a single timeout; sequences of faults over several resources are not reached.',
 ['resync/client.py'],[('retry loop','resync/client.py update_resource'),('ignore_failures','resync/client.py update_resource'),('reading of source documents','resync/client.py read_resource_list, find_resource_list')])

p('C10','Synchronization never writes or deletes outside the mapped destinations',
 'Whatever URIs (with dot segments, escapes, empty segments, odd or control-like characters, other hosts, look-alike prefixes) a source puts in its resource list or change list, a synchronization creates, changes and deletes files only below the destination paths of its mappings (besides its own state file). Resources that cannot be mapped there are refused or skipped with nothing written for them.',
 ['inputs'],'hostile URIs in resource lists and change lists, with delete on, one or more mappings, files planted next to the destination',
 'Tests use well-behaved URIs only; the source is not trusted and the space of URIs is unbounded.',
 ['resync/client.py','resync/mapper.py'],[('src_to_dst','resync/mapper.py Map.src_to_dst'),('write and delete','resync/client.py update_resource, delete_resource')])

p('C11','A source speaks only for the resources it has authority over',
 'A URI has authority over another exactly when the schemes are equal and the hosts are equal or the other host is a subdomain of the first (strict: also, the path of the other is at or below the directory of the first, compared by whole segments with dot segments resolved). A baseline synchronization with authority checks on, lax or strict, aborts before touching any file if the resource list contains a resource that the source list URI given or derived from the mappings has no authority over, and an incremental one if the change list contains a resource over which neither that URI nor the change list has (for a change list given explicitly: it alone); both proceed when there is authority over all, and with checks off the same lists are accepted. A list object told to check the authority of URLs refuses an index read from the web that names a component list which the URI of the index has no authority over.',
 ['inputs'],'pairs of URIs built from related hosts, ports, schemes and paths; lists with and without foreign resources, baseline and incremental, lax, strict and off',
 'Tests try 25 fixed pairs and never a whole synchronization.',
 ['resync/url_authority.py','resync/client.py','resync/list_base_with_index.py'],[('has_authority_over','resync/url_authority.py'),('checks in a synchronization','resync/client.py baseline_or_audit, incremental')])

p('C12','Mappings are literal, inverse to each other, first match wins',
 'A mapping translates a source URI that is its URI or below it (compared literally, whole path segments) to the same relative path below its destination and back, so that translating there and back gives the original (the URI itself gains a trailing slash); anything else, and anything that would leave the destination through dot segments, is not translated. With several mappings the first that applies decides, and when none applies MapperError is raised. Mappings given as one pair, as uri=path pairs or as a single URI with derived destination mean what the documentation says; duplicates and half pairs are refused, and a mapping is called unsafe exactly when its destination is, contains or lies inside its local source, in which case no synchronization is done.',
 ['inputs','configurations'],'mapping lists built from related URIs and paths with regular-expression metacharacters, trailing slashes, dots and nested prefixes',
 'Tests use a dozen fixed mappings without special characters or shared prefixes.',
 ['resync/mapper.py'],[('Map and Mapper','resync/mapper.py')])

p('C13','Dumps contain every resource once, with manifests that describe them',
 'Writing a dump of a list of local files gives zip packages that together hold every file exactly once, with its content, under the path the manifest in that package gives for its URI, the manifest repeating the description of each resource; no package exceeds the file limit, nor the size limit before its last file, and a package ends only when a limit is reached or the list ends. The separate manifest of a package, when written, says the same as the one inside, and the list given is unchanged except that missing lengths are filled in. A list with a missing file, without local paths, with a length that differs from that of the file or with a file larger than the size limit is refused before any package is written, and so is a format that is not known; an empty list gives no package.',
 ['inputs','configurations'],'trees of files of various sizes in any order, limits on files and size, resource lists and change lists',
 'Tests dump two or three fixed files; partition by limits and path handling need arbitrary trees.',
 ['resync/dump.py','resync/archives.py'],[('partition into packages','resync/dump.py write, partition_dumps'),('one package','resync/dump.py write_zip'),('archive paths','resync/dump.py archive_path, archive_manifest, check_files')])

p('C14','A built resource list describes exactly the files on disk',
 'Building a resource list from mapped directories or single files lists every regular file that is not excluded exactly once, under the URI its mapping gives, with its size, modification time and (when asked) exactly the requested hashes of its content; symbolic links are left out unless inclusion is asked for, excluded files, those that vanish before they are looked at and (for hashes) those that cannot be read are skipped without stopping the scan, pipes and sockets are not listed, and with several mappings all are listed. Local paths are recorded only when asked for. A resource list given to start from keeps its entries.',
 ['inputs','configurations'],'generated directory trees with nested directories, odd names, symlinks, exclude patterns, hashes, several mappings',
 'Tests use one fixed tree of three files.',
 ['resync/resource_list_builder.py'],[('walk','resync/resource_list_builder.py add_file, from_disk, from_disk_add_path'),('exclusion','resync/resource_list_builder.py add_exclude_patterns, _exclude')])

p('C15','Hashes are those of the content, and drive change detection when known',
 'For any file the computed md5, sha-1 and sha-256, alone or in any combination, equal those of its content whatever its size, and unknown hash types are refused. With checksums on, a synchronization detects and repairs every content difference whose hash the source gives even if length and time agree, uses only hash types the source provides, and without checksums reads no content to compare. Content downloaded that does not have the length or (for the types in use) the hash given by the source is reported.',
 ['inputs','configurations'],'contents of sizes around block boundaries; same-size same-time content changes with every subset of hash types',
 'Tests hash one small file.',
 ['resync/hashes.py','resync/client.py'],[('block reading','resync/hashes.py compute_for_file'),('hash choice','resync/client.py baseline_or_audit, prune_hashes')])

p('C16','Lists behave as their documented collection for every history of operations',
 'A resource list is a mapping by URI: adding a URI twice is refused unless replacing (which keeps its place), iteration is in insertion or URI order as the storage class says, and any number of simultaneous iterations are independent. A change list and the dump kinds keep every entry in order, a change list refusing entries without a change; removing duplicates keeps the last entry for each URI (and drops URIs created and then deleted), and removing old entries keeps exactly those at or after the given time. Source descriptions and capability lists are sets by URI with lookup by capability, capability lists in the documented order of capabilities with others at the end, and links, metadata and their times are kept as set.',
 ['histories'],'sequences of up to 12 operations on each collection, checked against a plain model after every step',
 'Tests apply one operation at a time to two or three entries.',
 ['resync/resource_list.py','resync/resource_set.py','resync/change_list.py','resync/capability_list.py','resync/source_description.py','resync/resource_container.py','resync/list_base.py'],[('storage classes','resync/resource_list.py ResourceListDict, ResourceListOrdered; resync/resource_set.py; resync/capability_list.py CapabilitySet'),('prune_dupes, prune_before','resync/resource_container.py, resync/change_list.py')])

p('C17','Parsing any input gives a faithful list or one of the documented errors',
 'Any text or XML given as a document either parses or is refused with a parse error, an index error or an XML error, and never with any other exception or an endless loop, and a refused entry is never half used. Documents with the wrong root, the wrong or missing capability for the list type, metadata or links after the first entry or more than one metadata element, entries with no or several locations, repeated metadata in an entry, bad numbers, datetimes, priorities or change types, links without rel or href, a URI repeated where each may be listed once, change list entries without a change, or entity declarations, are refused; unknown elements and attributes, unknown and repeated hash types and hashes that are not of the form type:value are ignored without changing what is read. Reading an index where a list is required, or the reverse, is refused.',
 ['inputs'],'valid documents with one to three structured edits each of known effect, and arbitrary mutations of text',
 'Tests feed about 40 fixed bad documents.',
 ['resync/sitemap.py','resync/list_base.py'],[('strict checks','resync/sitemap.py parse_xml, resource_from_etree, md_from_etree, ln_from_etree, str_to_datetime use')])

p('C18','The source documents are found by the documented chain of discovery',
 'A baseline synchronization or audit reads the resource list given explicitly if any, else the one named by the capability list given explicitly, and otherwise the first that works of: the list reached through the source description at the well-known URI next to the source list, then at that of its server, resourcelist.xml and sitemap.xml next to it, and sitemap.xml of the server. A source description without or with several capability lists and a capability list without resource list are refused with a fatal error rather than passed over, as is a source with no list at all; documents that cannot be read or are of another type are passed over (an error if given explicitly) and never used, and relative URIs are resolved against the document they are in. An incremental synchronization reads the change list given, by URI or by name below the source, or changelist.xml there.',
 ['inputs','configurations'],'layouts of source documents at the candidate URIs, each valid, of another type, malformed or missing',
 'Tests cover three layouts.',
 ['resync/client.py'],[('find_resource_list, find_resource_list_from_source_description, find_resource_list_from_capability_list, sitemap_uri','resync/client.py')])

p('C19','Every request carries the configured identity, delay and timeout, nothing else',
 'Every web request made by a synchronization carries the user agent, and the bearer token exactly when one is configured, waits the configured delay before every request after the first, uses the configured timeout for resource downloads, local files are never delayed. Settings made for one run hold for all its requests, documents and resources alike.',
 ['configurations','histories'],'sequences of opens of web and file URIs and whole synchronizations under any configuration',
 'Tests look at a single request.',
 ['resync/url_or_file_open.py','resync/client.py','resync/client_utils.py'],[('url_or_file_open','resync/url_or_file_open.py')])

p('C20','Stored synchronization times are kept per source',
 'For any sequence of storing, clearing and reading synchronization times for any number of sources (whose URIs differ in more than case and punctuation), in any order and in new processes, reading gives the time last stored for that source, or nothing when it was cleared or never stored, and no source affects another. A status file that is missing reads as no state.',
 ['histories'],'sequences of operations over several sources, with special characters in URIs and fractional times',
 'Tests store one value.',
 ['resync/client_state.py'],[('ClientState','resync/client_state.py')])

p('C21','The command-line tools do what their options say',
 'For any valid combination of options the synchronization and build tools run the mode, mappings, hashes, exclusions, limits and outputs asked for, and produce the same files as the library used directly; what resync-build writes describes the given files and parses as the documents it claims to be. Incompatible, missing or malformed options are refused with an error message (and a non-zero exit for errors of usage) before anything is written or fetched.',
 ['configurations','inputs'],'command lines drawn from the documented options over generated trees',
 'Tests run the tools only to show their help or a single error.',
 ['resync-sync','resync-build','resync/client_utils.py','resync/client.py'],[('option parsing','resync-sync main, resync-build main, resync/client_utils.py')])

p('C22','The explorer shows what a document lists and follows what the user picks',
 'For any document, the explorer lists its entries and its describedby, up and index links, each as an option that leads to exactly that URI (made absolute against the document), with at most 20 of more than 21 entries shown and the number of the rest told, warns of documents or entries of a type not expected there, and for a resource shows its status and compares its headers with what the document said. Documents that cannot be read or parsed are reported and never end the session.',
 ['inputs'],'documents of every type with relative and absolute links, scripted inputs over graphs of documents',
 'Tests look at two documents with one scripted answer.',
 ['resync/explorer.py'],[('explore_uri, explore_show_summary, explore_show_head, expand_relative_uri','resync/explorer.py')])

p('C23','The log accounts for every change made, and for nothing else',
 'A synchronization logs one event for each file it created, updated or deleted, in the order in which it did so, with the URI, the kind of change and, for what was fetched, the times, length and hashes the source gave, in a form that reads back as exactly the values set; none for what did not happen (in an audit or a dry run, for a download or deletion that failed or was not allowed). Each failure that is passed over gives one warning naming the resource, one that ends the run is named in its error. Messages reach the console from warnings up (info if verbose) and, when a log file is asked for, are appended to it from info up (debug in evaluation mode), each once, with its UTC time, logger and level, whatever the locale and time zone.',
 ['inputs','fault_sequences','configurations'],'states of source and destination, failing downloads, files already gone, modes and options; resources; sequences of messages under all settings of the log',
 'Tests look for single messages of single runs.',
 ['resync/client.py','resync/client_utils.py','resync/resource.py'],[('log_event, update_resource, delete_resource','resync/client.py'),('init_logging, UTCFormatter','resync/client_utils.py'),('__repr__, __str__','resync/resource.py')])
p('C24','A synchronization stopped at any point is put right by the next one',
 'However a baseline or incremental synchronization is killed or interrupted (before, during or after any of its operations on files and reads of responses, once or several times over, with or without changes of the source in between), the next whole run leaves the destination as it would have been without the stop. A run that was stopped before it had applied everything has stored no time for its source, and has neither lost or changed the stored time of any source nor touched a file that it does not synchronize. (Resources are listed with their length or time, and none is newer than the changes listed.)',
 ['crash_points','histories','inputs'],'states of source and destination, kinds of run, stops at any operation or a few lines later, changes of the source between stops',
 'Tests let every run finish.',
 ['resync/client.py','resync/client_state.py'],[('baseline_or_audit, incremental, update_resource, delete_resource','resync/client.py'),('set_state','resync/client_state.py')])

p('C25','What the build tool publishes, the synchronization tool reproduces',
 'For any directory of files and any history of edits to it (additions, changes, newer or older times, deletions; changes of content alone when hashes are compared), a source that serves its files along with the documents resync-build writes for it (resource lists in one file or several, found by their default name, by --sitemap, or through a capability list or source description that the tool wrote too) is reproduced by resync-sync: after each baseline the destination has the same files with the same contents and times (in whole seconds), files no longer listed being removed exactly with --delete, and likewise after the change list that the tool wrote against the previous resource list (or between two lists) has been applied, read with --spec-version 1.0 and an explicit --from. An audit then says so with the right counts, a resource list built over the destination under the URIs of the source lists the same resources, a destination that is published in turn is reproduced in the same way, and a dry run before any of this changes nothing.',
 ['histories','inputs','configurations'],'histories of up to three rounds of edits, publication and synchronization with the command-line tools, sources of one or two mappings, mirrors of mirrors',
 'Tests look at the tools and at the documents one by one, and never run one on what the other wrote.',
 ['resync-build','resync-sync','resync/client.py','resync/resource_list_builder.py'],[('write_resource_list, write_change_list, baseline_or_audit, incremental','resync/client.py'),('from_disk','resync/resource_list_builder.py'),('write, index parts','resync/list_base_with_index.py')])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), max(len(x['title']) for x in P))

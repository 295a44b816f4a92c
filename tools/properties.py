#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/properties.py writes it)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=', '.join(files))])))


M = 'dfir_ntfs/MFT.py'
A = 'dfir_ntfs/Attributes.py'
L = 'dfir_ntfs/LogFile.py'
S = 'dfir_ntfs/ShadowCopy.py'
F = 'dfir_ntfs/addons/FAT.py'
X = 'dfir_ntfs/addons/exFAT.py'

prop('C01', 'Mapping pairs decode to exactly the encoded runs or are rejected',
     'For every byte string given as mapping pairs, decoding yields exactly the run list the NTFS encoding defines (signed little-endian lengths and relative offsets of up to eight bytes, holes that do not move the reference point of the next offset), ignoring everything after the terminator. '
     'A truncated or unterminated string, an invalid width, a length that is not positive, or a run other than the first one that lands on cluster zero is always rejected, never decoded into something else.',
     ['inputs'], 'all byte strings used as mapping pairs', 'The tests decode a handful of well-formed run lists from sample volumes; widths, signs, holes followed by relative offsets and truncations are not sampled.',
     [M], 'DecodeMappingPairs and every caller that turns an attribute into runs')

prop('C02', 'A file exposed over its runs behaves like the file it describes',
     'For every run list, cluster size, volume offset, file size and history of seek, tell and read calls, a file exposed over its runs behaves exactly like a read-only in-memory file with that content: holes read as zeros, every byte comes from the run that holds it, reads stop at the declared file size and never return what lies after it, and the position moves by the number of bytes returned. '
     'An invalid seek is rejected and leaves the position alone; a read that would need clusters the runs or the volume do not have raises an error rather than returning short or invented data.',
     ['inputs', 'histories'], 'all layouts and all call histories', 'The tests read sample files from start to end in a few chunk sizes.',
     [M], 'FragmentedFile (also the $MFT itself, through the NTFS FileSystemParser, and nonresident attribute values)')

prop('C03', 'Torn multi-sector structures are never accepted as intact',
     'For every protected structure (file record segment, index buffer, log file page) the content handed to the user has each sector tail restored from the update sequence array, and every sector of it that carries used data had the matching sequence number. '
     'A mismatch that touches used data is always rejected; a structure whose update sequence array is out of bounds or does not cover the structure is rejected too.',
     ['inputs', 'fault_sequences'], 'all subsets of torn sectors, all array positions and all sequence numbers, for every protected structure', 'Sample data contain intact structures and one or two torn records; every combination of torn sector and used size is out of reach of samples.',
     [M, A, L], 'update sequence array application in FileRecordSegment, IndexBuffer, log file restart and record pages')

prop('C04', 'Attributes of a record segment are reported exactly, within bounds',
     'For every file record segment, enumerating attributes yields, in order, exactly the records that lie between the first attribute and the first free byte, with the type, name, resident value or nonresident extent that the record encodes, stopping at the end marker. '
     'A record whose length, name, value or mapping pairs does not fit in the record or in the used area is rejected, so no reported byte ever comes from outside them; the slack is exactly what follows the end marker.',
     ['inputs'], 'all record segment contents', 'Tests walk well-formed records only.',
     [M], 'FileRecordSegment header validation, attributes() and get_slack()')

prop('C05', 'File records are assembled from the right base and child segments',
     'For every $MFT content, enumeration yields each valid base segment exactly once, in order, together with exactly those child segments that name it with its current sequence number (for a deallocated base, the number it had while in use), and invalid segments are skipped without losing the others. '
     'Looking a record up by number and sequence number returns the same assembly, resolves a child number to its base, and rejects a stale sequence number.',
     ['inputs'], 'all arrangements of base, child, invalid, deallocated and reused segments', 'The sample $MFT that exercises child segments is missing from the test data.',
     [M], 'MasterFileTableParser first pass, file_records, get_file_record_by_number')

prop('C06', 'A stream split over several attribute records is joined without gap',
     'For every file record, the runs reported for a named or unnamed stream (or index allocation) are the concatenation, in cluster order, of the runs of all its attribute records and of no other, and the size is that of the record that starts at cluster zero. '
     'A missing, overlapping or misplaced piece is rejected when runs are requested; merged enumeration yields one attribute per stream with all its pieces in order and leaves resident attributes as they are.',
     ['inputs'], 'all sets of attribute records of a file, in any storage order', 'The sample with a split attribute list is missing from the test data.',
     [M], 'FileRecord.get_data_runs, get_data_size, attributes(merge_attributes)')

prop('C07', 'Full paths follow the recorded parents and mark what is lost',
     'For every $MFT content and every file record, one path is reported per file name, preferred (Win32 or POSIX) names first, each built from the recorded chain of parent directories up to the root. '
     'When a parent is missing, was reused (sequence mismatch), is not a directory, or the chain loops, the path starts with the orphan placeholder in place of the lost part; the computation always ends.',
     ['inputs'], 'all parent graphs, including cycles, reused and deallocated parents and hard links', 'The path tests need a sample $MFT that is not in the test data.',
     [M], 'MasterFileTableParser.build_full_paths')

prop('C08', 'Looking up a path finds exactly the allocated file at that path',
     'For every $MFT content and every path, lookup returns an allocated record that really has this path (each component being a recorded name of the record the parent reference still designates, compared with or without case as requested), finds such a record through any of its names and hard links, and returns nothing when there is none. '
     'A trailing separator only matches a directory, the root path returns the root directory, and a relative or empty path or an empty or dotted component on the way is rejected.',
     ['inputs'], 'all directory graphs and all path strings', 'The path tests need a sample $MFT that is not in the test data.',
     [M], 'MasterFileTableParser.get_file_record_by_path')

prop('C09', 'Opening a volume locates the whole $MFT',
     'For every valid NTFS boot sector and layout, opening a volume computes the cluster size, the record size and the start of the $MFT as the boot sector encodes them, and the $MFT is then readable to its last byte even when its runs are scattered over further segments that are themselves located only through the runs found so far. '
     'An invalid boot sector, an $MFT without usable runs, or an attribute list that does not begin in the first segment is rejected.',
     ['inputs', 'configurations'], 'all boot sector encodings and all $MFT fragmentation layouts', 'The fragmented $MFT sample is missing from the test data.',
     ['dfir_ntfs/BootSector.py', M, A], 'BootSector, FileSystemParser, AttributeList')

prop('C10', 'Every change journal record is reported once, in order',
     'For every change journal, each valid record (versions 2, 3 and 4) is reported exactly once, in file order, with the fields it encodes, regardless of the leading sparse area, of gaps of zeros and of where it lies relative to internal read boundaries. '
     'Damaged or foreign bytes between records are skipped without losing the following valid record and without reporting anything that is not a valid record.',
     ['inputs'], 'all journal contents', 'Tests read a few sample journals without damage around read boundaries.',
     ['dfir_ntfs/USN.py'], 'ChangeJournalParser.usn_records, GetUsnRecord and the record classes')

prop('C11', 'Attribute lists, directory indexes and extended attributes are listed exactly',
     'For every attribute list, index root, index buffer, set of extended attributes and WSL metadata value, the entries are reported exactly as encoded, in order, each once, up to the end mark or the end of the data. '
     'Enumeration always ends, a malformed entry never yields bytes from outside the container, and the index slack is exactly what lies after the used part of each buffer.',
     ['inputs'], 'all container contents', 'Tests list entries of well-formed samples.',
     [A, 'dfir_ntfs/WSL.py'], 'AttributeList, IndexRoot, IndexBuffer, IndexAllocation, EA, LXATTRB, LXXATTR')

prop('C12', 'Slack carving finds every intact name record and invents none',
     'For every slack area, carving reports, once each and in order, every complete file name structure (with plausible timestamps, flags and name) that lies in it an even number of bytes before its end, whatever surrounds it; of one that starts right at the beginning of the area, the parent reference may be overwritten. '
     'Nothing is reported that does not meet those criteria, and partial names are reported only when asked for.',
     ['inputs'], 'all slack contents', 'Tests carve a few samples.',
     [M, A], 'SlackSpace.carve')

prop('C13', 'Every log record reachable in the log file is reported, whole and in order',
     'For every log file history, including wrap-around and records that span pages, every record still present that follows in the log a record named by a restart page, a page header or a restart area, or to which the previous and undo links of such records lead back, is reported exactly once, in increasing sequence order per client, with its header fields and its data reassembled in order from all the pages it spans. '
     'Overwritten, torn or foreign content is never reported as a record and does not hide intact records; of a record whose continuation cannot be read only the data before it are given.',
     ['histories', 'inputs'], 'all histories of appends, flushes and wrap-arounds over the log area', 'The sample log files cover a few histories; wrap inside a record and chained lookups across the wrap are not sampled.',
     [L], 'LogFileParser LSN arithmetic, collect_lsns, get_client_data, log record parsing')

prop('C14', 'Recovered log pages supersede stale ones without touching the source',
     'For every log file, the newer copies kept in the tail and fast pages replace the stale page they belong to before records are read: of the tail copies the most recent wins, if newer than the page in place, and fast pages are applied oldest first and only when not older than anything the log area holds; a copy that names no place in the log area is ignored. '
     'The source is never written, and afterwards, also when enumeration is left early, the view of the log file is the original one again.',
     ['histories', 'crash_points'], 'all crash points that leave newer page copies in the tail or fast area', 'Two samples have such pages; ordering and staleness combinations are not sampled.',
     [L], 'LogFileParser recovery (tail pages, fast pages) and discard of changes')

prop('C15', 'Log record targets are resolved with the table in force at that point',
     'For every sequence of log records of a client, the file and attribute name a record refers to are those of the latest open-attribute record for its target index before it in the log or, if there is none, of an entry in use in the latest complete pair of dumps (open attribute table followed by attribute names) of a checkpoint, in either format of the table. '
     'A target that no such entry describes is reported as unknown, never as another file; record numbers and offsets computed for $MFT updates match the cluster, block offset and size the record encodes.',
     ['histories', 'inputs'], 'all interleavings of open-attribute records, checkpoints, table dumps and updates', 'Samples exercise one table version and few reuses of a table slot.',
     [L], 'open attribute table and attribute names tracking in parse_ntfs_records; NTFSLogRecord target computation')

prop('C16', 'A shadow copy shows the volume as it was at its creation',
     'For every copy-on-write history, reading a selected shadow copy returns for every block the content the volume had when it was created: the block saved in its own or the nearest newer store (following forwarders, and merging partially saved blocks sector by sector), and otherwise the current volume content. '
     'Blocks that were unused in the snapshot are shown as the store asks (as null blocks or current data); a read that asks for marks replaces the empty sectors and those of the current volume by marks, and no others. Reading, like any file, works at any offset and size, ends at the volume size and never changes the source.',
     ['histories', 'inputs'], 'all copy-on-write histories over a stack of stores and all read histories', 'The sample volume for shadow copies is missing from the test data; only translation on two small samples runs.',
     [S], 'ShadowParser read, translate_offset and read_diff_area over a stack of stores')

prop('C17', 'A shadow copy stored on another volume is combined with the right volume',
     'For every copy-on-write history whose differential area lies on a second volume, reading a selected shadow copy returns for every block the content the protected volume had when the copy was created, taking saved blocks from the storage volume and unsaved ones from the protected volume, never the other way round. '
     'Overlay and forwarder semantics, unused blocks, and file-like reading are the same as when both are on one volume.',
     ['histories', 'inputs'], 'all copy-on-write histories over two volumes and all read histories', 'One two-volume sample exists; forwarders, overlays and unused blocks in this mode are not sampled.',
     [S], 'ShadowParserTwoVolumes read, translate_offset and read_diff_area')

prop('C18', 'Shadow copies are catalogued completely and in creation order',
     'For every catalogue, whatever the order and the block its records are stored in, exactly the described stores are listed, each once, in catalogue order, with their position, identifier, time and size, and selecting one by position or identifier serves that one (then the newer ones at the following positions), if exactly one description and one location exist for each of them, and is rejected otherwise. '
     'A chain of metadata blocks is cut short at a block that is not where it says it is, rejected at one that is no such block, and never followed forever.',
     ['inputs'], 'all catalogue contents, orders and block chains', 'Samples hold one or two catalogues; order, gaps and damaged chains are not sampled.',
     [S], 'catalogue parsing, shadows(), select_shadow and block chain traversal')

prop('C19', 'Partitions are listed exactly, in each partitioning scheme',
     'For every disk image, the partitions listed are exactly those the table defines, in table order, with their sectors, types and names: used GUID table entries (from the primary header, or else the copy that a recognisable damaged primary names, or else the one in the last sector), or used primary entries and the logical partitions of every extended one, whose chained links are relative to its start. '
     'A loop, an out-of-range link or an unsigned sector ends that chain only; a header or an array of entries whose checksum does not match, or that does not fit the disk, is not trusted.',
     ['inputs', 'fault_sequences'], 'all partition tables and corruptions of them', 'A few sample tables are read.',
     ['dfir_ntfs/PartitionTable.py'], 'PartitionTable: GPT header validation, MBR and EBR traversal')

prop('C20', 'FAT cluster chains and file contents are followed exactly',
     'For every FAT12, FAT16 and FAT32 volume the type and geometry follow from the boot sector, and the chain of a file is exactly the sequence of clusters linked from its first cluster up to the end mark, a bad mark, a free or reserved link, or the first repetition; its content is that of those clusters cut at the file size, bad ones read as zeros. '
     'Links or clusters outside the volume are rejected rather than read.',
     ['inputs'], 'all tables, geometries and first clusters', 'Samples hold well-formed chains for a few geometries.',
     [F], 'BSBPB geometry, FAT.get_element, FAT.chain, FileSystemParser.read_chain')

prop('C21', 'FAT directory entries and long names are decoded without mixing files',
     'For every directory content, each file entry is reported exactly once, in order, with its attributes, size, first cluster and timestamps; a long name is attached to an allocated entry only if its parts right before it form a complete, ordered sequence with the checksum of that very entry, and to a deleted one (whose first byte is lost) only if the parts right before it form one coherent run: all deleted with the same checksum, or all allocated in falling order. '
     'Name parts that belong to no entry are reported as orphan partial names, entries after the end mark are marked as being of uncertain status, and no name part is ever attached to a different file.',
     ['inputs'], 'all sequences of directory entries', 'Samples contain ordinary directories with few damaged name sequences.',
     [F], 'DirectoryEntries.entries, short and long name decoding')

prop('C22', 'Walking a FAT volume reports every reachable entry once and ends',
     'For every directory graph, the walk reports every entry of every allocated directory reachable from the root under its full path, and those of deleted directories whose first cluster is free and still holds a directory, exactly once per path, leaves out what leads back to a directory being walked, and so ends even if directories form loops (nested up to some hundreds deep). '
     'Content of a reallocated directory is not attributed to the deleted one unless asked for, and then only to a path of its own.',
     ['inputs'], 'all directory graphs, including cycles, shared and reallocated clusters', 'Samples are small trees without loops or reallocation.',
     [F], 'FileSystemParser.walk')

prop('C23', 'exFAT volumes are opened and files read exactly as described',
     'For every exFAT volume, the main or else the backup boot region is used only if its checksum and geometry are valid, the active table and bitmap are chosen as flagged, and file content is exactly that of the linked chain, or of consecutive clusters when so flagged, cut at the file size with bad clusters as zeros. '
     'Chains end at end, bad, free or reserved marks and repetitions; whatever lies outside the volume is rejected or left out, never read, and the state of a cluster that the bitmap does not cover is unknown.',
     ['inputs', 'fault_sequences'], 'all geometries, tables, bitmaps and corruptions of the boot regions', 'Samples hold a few intact volumes.',
     [X], 'BR validation and checksum, FAT.chain, Bitmap.is_allocated, FileSystemParser')

prop('C24', 'exFAT entry sets are reported only when whole and valid',
     'For every directory content, a file is reported exactly once, in order, with the metadata of its own entry set, if and only if the set is complete, its secondary entries are of the right kinds and number, its name, cut to the length given, is valid, and (for an allocated set) its checksum matches. '
     'Name entries outside a valid set are reported as orphan partial names, and a rejected set never hides a following valid one.',
     ['inputs'], 'all sequences of directory entries', 'Samples contain ordinary directories.',
     [X], 'DirectoryEntries.entries, EntrySetChecksum, BuildName')

prop('C25', 'Walking an exFAT volume reports every reachable entry once and ends',
     'For every directory graph, the walk reports every entry of every allocated directory reachable from the root under its full path, those of deleted directories whose clusters are free, and those of still intact orphan directories, exactly once per path, leaves out what leads back to a directory being walked, and so ends even if directories form loops (nested up to some hundreds deep). '
     'An unreadable or malformed directory is skipped without stopping the walk.',
     ['inputs'], 'all directory graphs, including cycles, shared, deleted and reallocated clusters', 'Samples are small trees.',
     [X], 'FileSystemParser.walk')

prop('C26', 'Link tracking log entries are reported exactly for each log layout',
     'For every link tracking log, each entry of every sector of the log is reported exactly once, in order, with the identifiers, machine name and time range it encodes. '
     'An invalid header or sector, or an entry of an unknown type, is rejected instead of being misread.',
     ['inputs'], 'all tracking log contents', 'One or two samples are read.',
     ['dfir_ntfs/MoveTable.py'], 'MoveTableParser, LogSector, LogEntry')

prop('C27', 'Timestamps convert to the exact instant they encode',
     'For every encoded timestamp (64-bit file times, time-based identifiers, FAT and exFAT date/time pairs with their sub-second and time zone parts, WSL times) the reported instant is the encoded one to the microsecond (for file times, within the precision of a double-precision count of microseconds). '
     'A value that is out of range or names no calendar date is reported as absent and never as some other instant.',
     ['inputs'], 'all field values', 'Tests compare a few dozen values.',
     [A, F, X, 'dfir_ntfs/WSL.py'], 'DecodeFiletime, DecodeGUIDTime, DecodeFATTimestamp, DecodeFATTimezone, WSL time decoding')

prop('C28', 'Evidence is only read, never modified',
     'For every parser and every sequence of calls on it, the underlying image or file object is only positioned and read: it is never written, truncated or closed, and its content is the same afterwards. '
     'The same calls on the same image give the same answer again, in any order of use, also with other parsers reading the same file object in between and with enumerations under way (for a log file parser or a memory carver, one enumeration at a time).',
     ['histories', 'inputs'], 'all parsers and all call sequences', 'Tests never observe the calls made on the file object and use each parser once.',
     [M, L, S, F, X, 'dfir_ntfs/USN.py', 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/PartitionTable.py'], 'every class that takes a file object')

prop('C29', 'Control blocks carved from memory are those at the agreed positions',
     'For every memory image, the positions of the timestamps in a file control block are those most common among the first hundred candidates (a signature at an even position, four plausible timestamps in a row within its first 144 bytes and a further one behind them), and then every block of the image with plausible timestamps at these positions is reported exactly once, in order, with those timestamps and its file reference. '
     'Fewer than 25 candidates, or fewer than 20 that agree, are rejected; no block is read across the end of its memory page.',
     ['inputs'], 'all memory images', 'One sample block is repeated in the tests.',
     [M], 'MetadataCarver.carve_fcb_timestamps')

prop('C30', 'The $MFT report has one exact row per name, index entry and slack name',
     'For every $MFT, the report of it lists every base file record in order, with one row per file name (or one without a path), then one per entry of the file name index stored in the record, then one per file name found in the slack of its segments, each with the full path, reference, flags, size, alternate streams and timestamps that belong to that record, name or entry. '
     'No record is left out or told of twice, and nothing of one record is shown in the row of another.',
     ['inputs'], 'all tables with well-formed attribute values', 'The command line tools are not tested at all.',
     ['ntfs_parser'], 'process_mft')

prop('C31', 'The change journal report shows every record, with a path only if still valid',
     'For every change journal and $MFT, the report has exactly one row per journal record, in order, with the references, reason and source flags (named or in hexadecimal), time and name recorded. '
     'The path shown is that of the file record referred to, and only if that record is still valid and still has the sequence number recorded; the path of a later file with the same number is never shown.',
     ['inputs', 'histories'], 'all journals against all tables', 'The command line tools are not tested at all.',
     ['ntfs_parser', 'dfir_ntfs/USN.py'], 'process_usn')

prop('C32', 'The index report has one exact row per index entry, with its own path',
     'For every volume, the report of directory indexes has exactly one row per file name entry of every intact index buffer (of file records with a file name index outside of the record), in order, and then one per file name in the slack of these buffers, each with the reference, name, size and timestamps of that entry. '
     'The path shown is that of the parent directory the entry itself names, and only if a valid file record with that sequence number is there; otherwise it is shown as unknown and never taken from another directory.',
     ['inputs'], 'all volumes with directories, stale entries and slack', 'The command line tools are not tested at all.',
     ['ntfs_parser'], 'process_indx')

prop('C33', 'The log report has one exact section per log record, in order',
     'For every log file and $MFT, the report has one section per restart area and log record, in order, with its LSN, transaction, operations, target and the names, times and attribute data its redo and undo data (well formed for their operation) hold. '
     'Paths are shown only for a file record that still has the sequence number meant, file records freed in the log are listed at the end in order, and a record with damaged data never stops the report or changes another section.',
     ['inputs', 'histories'], 'all log histories against all tables', 'The command line tools are not tested at all.',
     ['ntfs_parser', 'dfir_ntfs/LogFile.py'], 'process_log')

prop('C34', 'The FAT and exFAT report has one exact row per directory entry',
     'For every FAT12/16/32 or exFAT volume, the report has exactly one row per entry of every directory (in use or deleted), partial name and label, with the full path made of the preferred (long, else short) names of its directories, the state, kind, size, encryption mark, timestamps and time zones (or short name) of its own entry, and what is unknown marked as such. '
     'The first label in use is the only one shown as the volume label of a FAT volume; names are written whole whatever characters they contain.',
     ['inputs'], 'all directory trees on all four kinds of volume', 'The command line tools are not tested at all.',
     ['fat_parser', F, X], 'fat_parser')

prop('C35', 'The report over shadow copies shows each $MFT as it was at that time',
     'For every history of a volume on which shadow copies were made, the report over all of them shows the $MFT as it is now, then for each shadow copy, in one group of rows marked with its stack position, the $MFT exactly as it was when that copy was made, whatever was created, renamed, deleted, reused or moved by growth since. '
     'A volume without shadow copies gives just the rows of the volume itself.',
     ['histories', 'inputs'], 'all histories of changes and shadow copies', 'The command line tools are not tested at all.',
     ['ntfs_parser', S], 'process_all_mft')

prop('C36', 'The memory and link tracking reports show every block and entry exactly',
     'For every memory image, the report has one row per control block carved from it, in order, with the reference and the five timestamps of that block; for every link tracking log, it has a section with the data of the header and then one per entry in use, in order, with the identifiers, host name, identifier times and time range of that entry. '
     'An input that cannot be read is rejected and not shown as empty.',
     ['inputs'], 'all memory images and link tracking logs', 'The command line tools are not tested at all.',
     ['ntfs_parser', M, 'dfir_ntfs/MoveTable.py'], 'process_mem, process_movetable')

prop('C37', 'Every field of a decoded structure is the one stored at its place',
     'For every content of a file record header (short or full), standard information, file name, object identifier, volume name or information, index root, buffer or entry header, reparse point, extended attribute information, WSL metadata, journal record (2, 3, 4), log page, restart page or area, client, log record header, log record, open attribute or attribute name entry, '
     'each field reported is exactly the value stored at its own place, to its full width and sign, whatever the other bytes hold and in whatever order fields are asked for. A field that the record is too short to have is reported as absent, never made up.',
     ['inputs'], 'all values of all fields, all record lengths', 'Tests look at a few fields of a few images, and high parts of wide fields are zero in all of them.',
     ['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py', 'dfir_ntfs/LogFile.py', 'dfir_ntfs/USN.py', 'dfir_ntfs/WSL.py'], 'get_* methods')

prop('C38', 'Codes and flags are shown under their own names, and none is lost',
     'For every set of flags, the text shown holds the name of each known flag that is set, from the lowest to the highest, and of no other; unknown journal flags are added as one number. For every code, a log operation or attribute type is shown under its own name, or as its number if it has none, '
     'an attribute value is read as the structure its type code stands for, and an operation is taken as one on a file record, on data outside of it, or on neither, as its code says, on the redo or undo side alike.',
     ['inputs'], 'all 2^32 sets of flags, all codes', 'Tests see the few flags and codes of their images.',
     ['dfir_ntfs/Attributes.py', 'dfir_ntfs/USN.py', 'dfir_ntfs/LogFile.py', 'dfir_ntfs/MFT.py', F, X], 'Resolve*, AttributeTypes, LOGGED_*')

prop('C39', 'A mounted shadow copy is one read-only file with the volume as it was then',
     'For every history of changes and snapshots and every sequence of file system calls, vsc_mount serves a root directory with exactly one regular file of the size of the volume, and every read of it, at any offset and size, by any handle and in any order, gives the bytes the volume had when the chosen shadow copy was made (or, if asked for, marks in place of empty blocks and those still on the volume), up to the end of the file. '
     'Calls that would change something, or open for writing, are refused as on a read-only file system, unknown inodes, names and handles are refused, nothing of the images is changed, and they are closed in the end. '
     'A command line that is wrong, or an image or stack position that does not exist, serves nothing; the list shows every shadow copy with its stack position and time.',
     ['histories', 'schedules', 'inputs'], 'all histories of snapshots, all command lines, all sequences of calls', 'The tool is not tested at all; it needs a mounted file system.',
     ['vsc_mount', S], 'VSCFS, VSCFS2, command line of vsc_mount')

prop('C40', 'What a volume says of itself is read from its place, or rejected',
     'For every boot sector of a FAT, exFAT or NTFS volume, file system information sector, start of a FAT, and every block that describes shadow copies (start block, control block and its items, application information, bitmap, table of saved blocks, places of a store), each value reported is exactly the one stored at its own place, to its full width, whatever the other bytes hold and in whatever order values are asked for. '
     'A structure of another kind or with a wrong signature is rejected, a value that cannot stand at its place (no such media type, a zero where there must be a number, an offset that is not aligned, contradicting flags) is rejected when asked for, and what this kind of volume does not have (extended fields without their mark, values of FAT32 on FAT12/16, parameters of flash memory without their identifier, a percentage above 100) is reported as absent, never made up.',
     ['inputs'], 'all values of all fields', 'Tests look at a few values of a few images, in which most of these fields are zero.',
     [F, X, S, 'dfir_ntfs/BootSector.py'], 'BSBPB, FSINFO, FAT, BR, BootSector, StartBlock, ControlBlock*, DiffAreaTable, LocationDescription')

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')

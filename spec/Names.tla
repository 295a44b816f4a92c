------------------------------- MODULE Names --------------------------------
(* Codes and flags shown by name: a set of flags is shown as the names of its known flags, from the *)
(* lowest bit to the highest, and (where the report does so) one number made of the flags that have    *)
(* no name; a code is shown under its own name, or as a number when it has none. The value of an          *)
(* attribute is read as what its type code says.                                                           *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANT Scope

VARIABLES cid, inp, bit, shown, rest
vars == <<cid, inp, bit, shown, rest>>
\* inp    [k: "ntfs", "fat", "exfat" (file attributes), "reason", "source" (of a journal record): b: sequence of bits, ascending;
\*         k: "op" (operation of a log record), "type" (of an attribute): b: <<low word, high word>>]
\* bit    the next bit to look at
\* shown  the names shown so far; rest  the bits that have none

Attrs == << "READ_ONLY", "HIDDEN", "SYSTEM", "", "DIRECTORY", "ARCHIVE", "DEVICE", "NORMAL", "TEMPORARY", "SPARSE", "REPARSE_POINT", "COMPRESSED", "OFFLINE", "NOT_CONTENT_INDEXED", "ENCRYPTED", "INTEGRITY_STREAM",
            "VIRTUAL", "NO_SCRUB_DATA", "RECALL_ON_OPEN", "PINNED", "UNPINNED", "", "RECALL_ON_DATA_ACCESS" >>
Reasons == << "DATA_OVERWRITE", "DATA_EXTEND", "DATA_TRUNCATION", "", "NAMED_DATA_OVERWRITE", "NAMED_DATA_EXTEND", "NAMED_DATA_TRUNCATION", "", "FILE_CREATE", "FILE_DELETE", "EA_CHANGE", "SECURITY_CHANGE",
              "RENAME_OLD_NAME", "RENAME_NEW_NAME", "INDEXABLE_CHANGE", "BASIC_INFO_CHANGE", "HARD_LINK_CHANGE", "COMPRESSION_CHANGE", "ENCRYPTION_CHANGE", "OBJECT_ID_CHANGE", "REPARSE_POINT_CHANGE", "STREAM_CHANGE",
              "TRANSACTED_CHANGE", "INTEGRITY_CHANGE", "", "", "", "", "", "", "", "CLOSE" >>
Sources == << "DATA_MANAGEMENT", "AUXILIARY_DATA", "REPLICATION_MANAGEMENT", "CLIENT_REPLICATION_MANAGEMENT" >>
Operations == << "Noop", "CompensationLogRecord", "InitializeFileRecordSegment", "DeallocateFileRecordSegment", "WriteEndOfFileRecordSegment", "CreateAttribute", "DeleteAttribute", "UpdateResidentValue",
                 "UpdateNonresidentValue", "UpdateMappingPairs", "DeleteDirtyClusters", "SetNewAttributeSizes", "AddIndexEntryRoot", "DeleteIndexEntryRoot", "AddIndexEntryAllocation", "DeleteIndexEntryAllocation",
                 "WriteEndOfIndexBuffer", "SetIndexEntryVcnRoot", "SetIndexEntryVcnAllocation", "UpdateFileNameRoot", "UpdateFileNameAllocation", "SetBitsInNonresidentBitMap", "ClearBitsInNonresidentBitMap", "HotFix",
                 "EndTopLevelAction", "PrepareTransaction", "CommitTransaction", "ForgetTransaction", "OpenNonresidentAttribute", "OpenAttributeTableDump", "AttributeNamesDump", "DirtyPageTableDump", "TransactionTableDump",
                 "UpdateRecordDataRoot", "UpdateRecordDataAllocation", "UpdateRelativeDataIndex", "UpdateRelativeDataAllocation", "ZeroEndOfFileRecord" >>
\* Type codes are multiples of 16.
Types == << "$STANDARD_INFORMATION", "$ATTRIBUTE_LIST", "$FILE_NAME", "$OBJECT_ID", "$SECURITY_DESCRIPTOR", "$VOLUME_NAME", "$VOLUME_INFORMATION", "$DATA", "$INDEX_ROOT", "$INDEX_ALLOCATION", "$BITMAP", "$REPARSE_POINT",
            "$EA_INFORMATION", "$EA", "", "$LOGGED_UTILITY_STREAM" >>
Classes == << "StandardInformation", "AttributeList", "FileName", "ObjectID", "SecurityDescriptor", "VolumeName", "VolumeInformation", "Data", "IndexRoot", "IndexAllocation", "Bitmap", "ReparsePoint",
              "EAInformation", "EA", "GenericAttribute", "LoggedUtilityStream" >>

NameOf(k, i) == LET t == CASE k = "ntfs" -> Attrs
                           [] k = "fat" -> SubSeq(Attrs, 1, 3) \o <<"VOLUME_ID">> \o SubSeq(Attrs, 5, 6)
                           [] k = "exfat" -> SubSeq(Attrs, 1, 3) \o <<"UNKNOWN8_MACOS">> \o SubSeq(Attrs, 5, 6)
                           [] k = "reason" -> [j \in 1..32 |-> IF Reasons[j] = "" THEN "" ELSE "USN_REASON_" \o Reasons[j]]
                           [] k = "source" -> [j \in 1..4 |-> "USN_SOURCE_" \o Sources[j]]
                IN IF i + 1 <= Len(t) THEN t[i + 1] ELSE ""
Flags == {"ntfs", "fat", "exfat", "reason", "source"}
Width(k) == CASE k = "fat" -> 8 [] k = "exfat" -> 16 [] OTHER -> 32

\* A code which has a name.
Lo == inp.b[1]
Known == /\ inp.b[2] = 0
         /\ \/ inp.k = "op" /\ Lo < Len(Operations)
            \/ inp.k = "type" /\ Lo % 16 = 0 /\ (Lo \div 16) \in 1..Len(Types) /\ Types[Lo \div 16] # ""
Title == IF ~Known THEN "" ELSE IF inp.k = "op" THEN Operations[Lo + 1] ELSE Types[Lo \div 16]
Class == IF inp.k = "type" THEN (IF Known THEN Classes[Lo \div 16] ELSE "GenericAttribute") ELSE ""
\* Operations on the file record itself, on data outside of it, or on neither.
Resident == {2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 17, 19, 33, 35, 37}
Outside == {8, 14, 15, 16, 18, 20, 21, 22, 34, 36}
Where == IF inp.k # "op" \/ inp.b[2] # 0 THEN "" ELSE IF Lo \in Resident THEN "record" ELSE IF Lo \in Outside THEN "outside" ELSE ""

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Seqs(w) == {<<>>} \cup {<<i>> : i \in 0..(w - 1)} \cup {s \in (0..(w - 1)) \X (0..(w - 1)) : s[1] < s[2]}
             \cup (IF Scope = "thorough" THEN {s \in (0..(w - 1)) \X (0..(w - 1)) \X (0..(w - 1)) : Ascending(s)} ELSE {})
             \cup {[j \in 1..(n - m) |-> m + j - 1] : m \in 0..(w - 1), n \in 0..w}
Small == /\ Scope # "none"
         /\ \/ \E k \in Flags : \E s \in Seqs(Width(k)) : inp = [k |-> k, b |-> s]
            \/ \E c \in (0..300) \cup {1024, 4096, 32768, 65535} : inp = [k |-> "op", b |-> <<c, 0>>]
            \/ \E c \in (0..600) \cup {4096, 32768, 65535}, h \in {0, 1, 32768, 65535} : inp = [k |-> "type", b |-> <<c, h>>]
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ bit = 0 /\ shown = <<>> /\ rest = <<>>
IsFlags == inp.k \in Flags
Look == /\ IsFlags /\ bit < 32
        /\ LET set == \E i \in 1..Len(inp.b) : inp.b[i] = bit
               n == IF set THEN NameOf(inp.k, bit) ELSE "" IN
           /\ shown' = IF n # "" THEN Append(shown, n) ELSE shown
           /\ rest' = IF set /\ n = "" THEN Append(rest, bit) ELSE rest
        /\ bit' = bit + 1 /\ UNCHANGED <<cid, inp>>
Name == /\ ~IsFlags /\ bit = 0 /\ bit' = 32
        /\ shown' = IF Known THEN <<Title>> ELSE <<>>
        /\ rest' = IF Known THEN <<>> ELSE inp.b
        /\ UNCHANGED <<cid, inp>>
Over == bit = 32
Done == Over /\ UNCHANGED vars
Next == Look \/ Name \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [shown |-> shown, rest |-> rest, class |-> Class, where |-> Where]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>Over
\* Every flag is shown in one way.
Counted == (Over /\ IsFlags) => Len(shown) + Len(rest) = Len(inp.b)
\* No two flags, and no two codes, have one name.
Told(k) == {i \in 0..31 : NameOf(k, i) # ""}
Distinct == /\ \A k \in Flags : \A i, j \in Told(k) : i # j => NameOf(k, i) # NameOf(k, j)
            /\ \A i, j \in 1..Len(Operations) : i # j => Operations[i] # Operations[j]
            /\ \A i, j \in 1..Len(Types) : i # j => Types[i] # Types[j]
            /\ Resident \cap Outside = {}
ASSUME Distinct
=============================================================================

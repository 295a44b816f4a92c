From e611e30f19785a44397bd1b2a55178305000008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:03 +0000
Subject: [PATCH 01/30] fix: do not return data beyond the end of a fragmented
 file

---
 dfir_ntfs/MFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..4e40157 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1455,7 +1455,7 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > self.file_size - self.current_offset_in_file: # Do not read beyond the end of the file.
 			size = self.file_size - self.current_offset_in_file
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
-- 
2.43.0


From 12c4ed7dad9d3377db66d735d62a6571b76a4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:50 +0000
Subject: [PATCH 02/30] fix: mark a file in a nameless directory as an orphan
 instead of failing to build its path

---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 4e40157..e8b8518 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1241,7 +1241,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except MasterFileTableException:
+							# A parent directory without a valid file name.
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From 4e3816d82259cf92511639a644d7ac198a07fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:50 +0000
Subject: [PATCH 03/30] fix: find a file by path through any of its hard links
 with the same name

---
 dfir_ntfs/MFT.py | 59 ++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index e8b8518..08652f5 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1076,6 +1076,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = []
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1085,11 +1087,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories # There can be many hard links with the same name (in different directories).
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1117,13 +1119,13 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
-				if file_record.is_in_use() and parent_directory is not None:
+				parent_directories = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+				if file_record.is_in_use() and len(parent_directories) > 0:
 					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
+						candidate_parent_directories.append((parent_directories, file_record))
 					else:
 						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
-							candidate_parent_directories.append((parent_directory, file_record))
+							candidate_parent_directories.append((parent_directories, file_record))
 
 			i += 1
 
@@ -1135,32 +1137,31 @@ class MasterFileTableParser(object):
 			raise MasterFileTableException('An invalid path component given (".", "..", or an empty name)')
 
 		# Now, try each candidate file record.
-		for parent_directory, candidate_file_record in candidate_parent_directories:
-			i = 0
-			while True:
-				parent_directory_number, parent_directory_expected_sequence_number = DecodeFileRecordSegmentReference(parent_directory)
-				if parent_directory_number == FILE_NUMBER_ROOT: # We are done.
-					if i == len(path_components):
-						# We found a proper file record.
-						return candidate_file_record
-					else:
-						break
+		for parent_directories, candidate_file_record in candidate_parent_directories:
+			for path_component in path_components:
+				next_parent_directories = []
 
-				try:
-					file_record = self.get_file_record_by_number(parent_directory_number, parent_directory_expected_sequence_number, False)
-				except MasterFileTableException:
-					break
+				for parent_directory in parent_directories:
+					parent_directory_number, parent_directory_expected_sequence_number = DecodeFileRecordSegmentReference(parent_directory)
+					if parent_directory_number == FILE_NUMBER_ROOT: # There are path components left, but we are already in the root directory.
+						continue
 
-				try:
-					path_component = path_components[i]
-				except IndexError:
-					break
+					try:
+						file_record = self.get_file_record_by_number(parent_directory_number, parent_directory_expected_sequence_number, False)
+					except MasterFileTableException:
+						continue
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
-				if parent_directory is None:
-					break
+					for next_parent_directory in compare_name_against_file_record(path_component, file_record, case_sensitive):
+						if next_parent_directory not in next_parent_directories:
+							next_parent_directories.append(next_parent_directory)
+
+				parent_directories = next_parent_directories
 
-				i += 1
+			for parent_directory in parent_directories:
+				parent_directory_number, __ = DecodeFileRecordSegmentReference(parent_directory)
+				if parent_directory_number == FILE_NUMBER_ROOT:
+					# We found a proper file record.
+					return candidate_file_record
 
 	def build_full_paths(self, file_record, include_attributes = False):
 		"""Build and return a list of full paths (as strings) for a given file record (FileRecord).
-- 
2.43.0


From 8aa1b37cb8ab953a72a6f5f12edeb850f1d15989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 04/30] fix: stop at a truncated index entry instead of raising
 struct.error

---
 dfir_ntfs/Attributes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..e1c46bd 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -761,6 +761,9 @@ class IndexRoot(GenericAttribute):
 		index_entry_pos = 16 + index_header.get_first_index_entry()
 		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos < len(self.value):
 			index_entry_raw = self.value[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
@@ -850,6 +853,9 @@ class IndexBuffer(object):
 		index_entry_pos = 24 + index_header.get_first_index_entry()
 		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):
 			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
-- 
2.43.0


From a2aa3eb520798c02515bbd0139f73e4cfeaf3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:56 +0000
Subject: [PATCH 05/30] fix: parse a log file without an NTFS restart area

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..c371aee 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = False # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From e6b8fcdf395474d450ba16ca0803514c49d301d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:55 +0000
Subject: [PATCH 06/30] fix: skip a truncated log record instead of stopping at
 it

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c371aee..331aae3 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1350,7 +1350,7 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (ClientException, NotImplementedError): # Invalid (truncated) or unsupported client data.
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
-- 
2.43.0


From 15584bc38cb514232178086305424387c2ac0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 07/30] fix: follow log records past the point where the log
 file wraps

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 331aae3..6c267a9 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -884,7 +884,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
-- 
2.43.0


From 858fb98d33c7542442488dc5b158d4586a714dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:54 +0000
Subject: [PATCH 08/30] fix: follow a multi-page log record that ends the last
 page of the log file

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6c267a9..55011a6 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -953,6 +953,12 @@ class LogFileParser(object):
 				candidate_offset_in_page = self.log_page_data_offset
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
+
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
 				if candidate_log_record_page is not None:
 					try:
-- 
2.43.0


From 9f755e0271d6fbca1c5effb37dc912b70ec429da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:06 +0000
Subject: [PATCH 09/30] fix: restore the view of the log file when parsing is
 not run to the end

---
 dfir_ntfs/LogFile.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 55011a6..a5e8b49 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1330,6 +1330,15 @@ class LogFileParser(object):
 		If 'recover_log_data' is True, apply a tail log record page or fast log record pages before parsing the log data.
 		"""
 
+		try:
+			yield from self.parse_ntfs_records_without_discard(recover_log_data)
+		finally: # Even if the caller does not want all of the records or if something goes wrong.
+			if recover_log_data:
+				self.discard_changes()
+
+	def parse_ntfs_records_without_discard(self, recover_log_data):
+		"""The same as above, but a writable file object (if any) is left in place."""
+
 		if recover_log_data:
 			self.prepare_for_writes()
 
@@ -1400,9 +1409,6 @@ class LogFileParser(object):
 
 					yield client_data_decoded
 
-		if recover_log_data:
-			self.discard_changes()
-
 	def __str__(self):
 		return 'LogFileParser, file size: {}'.format(self.file_size)
 
-- 
2.43.0


From 9eabe13a3df1ce975c3fca38348867716e12fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:41 +0000
Subject: [PATCH 10/30] fix: apply the remaining fast pages of a log record
 when its first pages are already in place

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index a5e8b49..25a0297 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1245,7 +1245,7 @@ class LogFileParser(object):
 		i = 2
 		while i < 34:
 			fast_page = self.get_log_record_page_by_number(i)
-			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
+			if fast_page is not None and fast_page.get_last_lsn() >= highest_lsn: # A record can span several pages (which share the same last LSN), not all of them may be in place.
 				fast_pages.append(fast_page)
 
 			i += 1
-- 
2.43.0


From 82a508809ad310fc79f31c319bda719bcd8059f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:14 +0000
Subject: [PATCH 11/30] fix: ignore a tail or fast log page which does not
 belong to the log area

---
 dfir_ntfs/LogFile.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 25a0297..720e6aa 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -709,6 +709,7 @@ class LogFileParser(object):
 			raise LogFileException('Invalid record header length: {} < {}'.format(self.record_header_length, LogRecordHeader.sizeof))
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
+		self.file_size_recorded = restart_area.get_file_size() # This can be larger than the actual file size (if the file is truncated).
 
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
@@ -1197,6 +1198,14 @@ class LogFileParser(object):
 		self.file_object = self.old_file_object
 		self.writable = False
 
+	def is_log_record_page_offset(self, file_offset):
+		"""Check if there is a place for a log record page (in the "infinite" area) at a given file offset."""
+
+		if file_offset is None or file_offset % self.log_page_size != 0:
+			return False
+
+		return file_offset // self.log_page_size >= self.get_wrapped_log_record_page_number() and file_offset + self.log_page_size <= max(self.file_size, self.file_size_recorded)
+
 	def apply_tail_page(self):
 		"""Apply a tail log record page to the log file. The log file version should be 1.1. The file object should be writable."""
 
@@ -1206,6 +1215,12 @@ class LogFileParser(object):
 		tail_page_1 = self.get_log_record_page_by_number(2)
 		tail_page_2 = self.get_log_record_page_by_number(3)
 
+		if tail_page_1 is not None and not self.is_log_record_page_offset(tail_page_1.get_file_offset_11()):
+			tail_page_1 = None
+
+		if tail_page_2 is not None and not self.is_log_record_page_offset(tail_page_2.get_file_offset_11()):
+			tail_page_2 = None
+
 		if tail_page_1 is None and tail_page_2 is None: # Nothing to do, both tail log record pages are invalid.
 			return
 
@@ -1250,6 +1265,7 @@ class LogFileParser(object):
 
 			i += 1
 
+		fast_pages = [ x for x in fast_pages if self.is_log_record_page_offset(x.get_file_offset_2x()) ]
 		fast_pages.sort(key = lambda x: x.get_last_lsn()) # Sort the fast pages according to the log sequence numbers they have (fast pages with more recent log data should be written at the end).
 
 		for fast_page in fast_pages:
-- 
2.43.0


From 0f2e0d07b3064216fd2dd7f7e0ec908e273be873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 12/30] fix: do not replace a log page with an older tail copy

---
 dfir_ntfs/LogFile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 720e6aa..396c55d 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1239,6 +1239,10 @@ class LogFileParser(object):
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
 
+			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
+			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) > single_tail_page.get_last_end_lsn(): # The page in place is more recent than its tail copy.
+				return
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
 
-- 
2.43.0


From 2ba23100c49ade3b317f1523cfa471f6f0f6bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:32 +0000
Subject: [PATCH 13/30] fix: do not stop parsing at a log record with an
 invalid offset of a table dump or of an open attribute entry

---
 dfir_ntfs/LogFile.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 396c55d..819688a 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1391,12 +1391,12 @@ class LogFileParser(object):
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1408,11 +1408,17 @@ class LogFileParser(object):
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							try:
+								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							except ClientException:
+								latest_oat_dump = None
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							try:
+								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							except ClientException:
+								latest_an_dump = None
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From 63677ad15e6d55f4cb3de53a083abc30ef96d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:21 +0000
Subject: [PATCH 14/30] fix: use attribute names dumped at the same checkpoint
 as the open attribute table

---
 dfir_ntfs/LogFile.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 819688a..dc80d74 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1372,12 +1372,9 @@ class LogFileParser(object):
 
 		for client_id in self.lsns_sorted.keys():
 			latest_oat_dump = None
-			old_oat_dump = None
 			latest_an_dump = None
-			old_an_dump = None
 
-			oat_dump_count = 0
-			an_dump_count = 0
+			new_oat_dump = None # A dump not followed by a dump of attribute names (yet).
 
 			oat = dict()
 
@@ -1407,31 +1404,26 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-							old_oat_dump = latest_oat_dump
 							try:
-								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+								new_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
 							except ClientException:
-								latest_oat_dump = None
-							oat_dump_count += 1
+								new_oat_dump = None
 						elif self.use_dumps and redo_op == AttributeNamesDump:
-							old_an_dump = latest_an_dump
-							try:
-								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
-							except ClientException:
-								latest_an_dump = None
-							an_dump_count += 1
+							# Both dumps should belong to the same checkpoint.
+							if new_oat_dump is not None:
+								try:
+									latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+								except ClientException:
+									pass
+								else:
+									latest_oat_dump = new_oat_dump
+
+							new_oat_dump = None
 
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = latest_oat_dump
+						client_data_decoded.an_dump = latest_an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From dccaa6b994e28f4ff5ce941d5832a5a93a3d91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 15/30] fix: do not resolve a log record target through a free
 entry of an open attribute table dump

---
 dfir_ntfs/LogFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index dc80d74..e3c5360 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1980,4 +1980,7 @@ class OpenAttributeTableDumpParser(object):
 		open_attribute_entry_buf = self.buf[index : ]
 		open_attribute_entry = self.oat_class(open_attribute_entry_buf)
 
+		if open_attribute_entry.get_allocated_or_next_free() != 0xFFFFFFFF:
+			raise ClientException('The open attribute entry is not allocated, index: {}'.format(index))
+
 		return open_attribute_entry.get_file_reference()
-- 
2.43.0


From 6642d5f1d4f75214fb8cbf745fe6223dc3bd2fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 16/30] fix: do not read beyond the end of the volume in a
 shadow copy

---
 dfir_ntfs/ShadowCopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..14b253f 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1227,6 +1227,8 @@ class ShadowParser(object):
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
 			return b''
 
+		size = min(size, volume_size - self.current_offset) # Do not go beyond the end of the volume.
+
 		block_offset = self.current_offset // 0x4000 * 0x4000
 		offset_in_block = self.current_offset % 0x4000
 
@@ -1771,6 +1773,8 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
 			return b''
 
+		size = min(size, volume_size - self.current_offset) # Do not go beyond the end of the volume.
+
 		block_offset = self.current_offset // 0x4000 * 0x4000
 		offset_in_block = self.current_offset % 0x4000
 
-- 
2.43.0


From 917481d66c7077f94cd9ea5e58caa201659dec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:32 +0000
Subject: [PATCH 17/30] fix: do not follow a loop in a chain of shadow copy
 blocks

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 14b253f..c6f1950 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1317,7 +1332,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1330,7 +1348,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1434,7 +1455,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1465,7 +1489,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1486,7 +1513,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1525,7 +1555,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Do not follow a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 0d2a11ceccb592e9e2f270bad5415fbe9a99fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:18 +0000
Subject: [PATCH 18/30] fix: reject a GPT partition entry array which does not
 fit on the disk before reading it

---
 dfir_ntfs/PartitionTable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index d0c8ab9..bf84efa 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -133,6 +133,9 @@ class GPT(object):
 
 		disk_guid = uuid.UUID(bytes_le = disk_guid_raw)
 
+		if partition_entry_lba * self.sector_size + number_of_partition_entries * size_of_partition_entry > self.volume_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		# Read and validate the partition entry array (but do not use it).
 		if self.volume_object.seek(partition_entry_lba * self.sector_size) != partition_entry_lba * self.sector_size:
 			raise ValueError('Cannot seek to the GPT partition entry array')
-- 
2.43.0


From f30815347d288e7ef427050f875aeef2b9db1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:18 +0000
Subject: [PATCH 19/30] fix: keep the logical partitions found when another
 extended partition starts at sector zero

---
 dfir_ntfs/PartitionTable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index bf84efa..4cfa1a4 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -329,7 +329,7 @@ class MBR(object):
 			next_ebr_lba_relative = 0
 
 			if first_ebr_lba == 0:
-				return []
+				continue
 
 			while True:
 				curr_ebr_lba = first_ebr_lba + next_ebr_lba_relative
-- 
2.43.0


From a646501559025502fc469d25664c473b7517ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:34 +0000
Subject: [PATCH 20/30] fix: reject a FAT boot sector without a number of
 sectors or a size of the table instead of raising TypeError

---
 dfir_ntfs/addons/FAT.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..a94cac3 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if totsec is None:
+				raise BootSectorException('Invalid number of sectors')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -635,6 +637,9 @@ class BSBPB(object):
 		if cnt > 0 and self.is_fat32:
 			raise BootSectorException('Invalid number (16) of FAT sectors')
 
+		if cnt == 0 and not self.is_fat32:
+			raise BootSectorException('Invalid number (16) of FAT sectors')
+
 		return cnt
 
 	def get_bpb_secpertrk(self):
-- 
2.43.0


From c3088386ac457903eb83335060880bbf01e6d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:09 +0000
Subject: [PATCH 21/30] fix: do not report an orphan long name which is empty

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index a94cac3..1e62788 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1245,7 +1245,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Skip an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1318,7 +1319,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Skip an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1450,7 +1452,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None: # Skip an empty name.
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 28f044642b9dec9837587f65b53047b79315b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:16 +0000
Subject: [PATCH 22/30] fix: reject a truncated exFAT boot region instead of
 raising struct.error

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..cbcaf25 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -535,6 +535,9 @@ class BR(object):
 		if self.get_mustbezero() != b'\x00' * 53:
 			raise BootRegionException('Invalid (non-zero) null area')
 
+		if len(self.br_buf) < 12 * self.get_bytespersector():
+			raise BootRegionException('Truncated boot region')
+
 		if self.get_checksum() != self.calculate_checksum():
 			raise BootRegionChecksumException('Invalid boot region checksum')
 
-- 
2.43.0


From 202e0d263ffa57f88b84722332cd00c1a8de5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:38 +0000
Subject: [PATCH 23/30] fix: report the state of a cluster as unknown if the
 exFAT bitmap is too short instead of raising IndexError

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index cbcaf25..e4c76de 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1044,6 +1044,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From 8d0626a8bb7ec87714734c2d0472b51960124182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 24/30] fix: validate an exFAT file name after truncating it to
 the length given

---
 dfir_ntfs/addons/exFAT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index e4c76de..843e331 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -134,13 +134,13 @@ def BuildName(NameEntities, NameLength):
 
 		i += 2
 
+	if NameLength is not None: # Truncate the name, if it is too long.
+		buf = buf[ : NameLength * 2]
+
 	name = buf.decode('utf-16le', errors = 'replace')
 	if len(name) == 0: # This is an invalid name.
 		return
 
-	if NameLength is not None and len(name) > NameLength: # This name is too long, truncate it.
-		return name[ : NameLength]
-
 	for character_code in FORBIDDEN_CHARACTERS:
 		character = chr(character_code)
 		if character in name: # This is an invalid name.
-- 
2.43.0


From 99e51b522d01c66327c08f3adc5c32b18723ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 25/30] fix: skip an exFAT directory with an invalid size
 instead of stopping the walk

---
 dfir_ntfs/addons/exFAT.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 843e331..6771280 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1212,7 +1212,16 @@ class FileSystemParser(object):
 		"""
 
 		def process_buf(buf, parent_path, stack):
-			dir_entries = DirectoryEntries(buf, len(parent_path) == 0)
+			is_root = len(parent_path) == 0
+
+			try:
+				dir_entries = DirectoryEntries(buf, is_root)
+			except DirectoryEntriesException:
+				if is_root:
+					raise
+
+				# This directory is invalid, skip it.
+				return
 
 			prev_first_cluster = None
 
-- 
2.43.0


From 7cb9d63e40ec14a135444101e24ada393af0cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:39 +0000
Subject: [PATCH 26/30] fix: do not compare invalid timestamps of reallocated
 exFAT directories

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 6771280..29f6fa5 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1262,7 +1262,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts): # An invalid timestamp is the oldest one.
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From a5a4936f3d5c27ead50c0e053d279be79cef3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 27/30] fix: return no WSL timestamp if it is out of range
 instead of raising OverflowError

---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..ab41f60 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object (or None, if the timestamp is invalid)."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From 5b8e449c2f6fbbfe4c0bab0779a15f6090be5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 28/30] fix: do not reuse the guessed offsets when carving file
 control blocks again

---
 dfir_ntfs/MFT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 08652f5..00eaddb 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1739,6 +1739,10 @@ class MetadataCarver(object):
 				file_pos += 4096
 
 
+		# Do not use the offsets guessed before (by another call).
+		self.guessed_pos_duplicated_information = None
+		self.guessed_pos_atime_real = None
+
 		pos_dict_dup = {}
 		pos_dict_a = {}
 		c = 0
-- 
2.43.0


From ee473f2f0dce1849a86e1d724a074020a0335cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 29/30] fix: show the path of the parent named by an index
 entry, not of the index owner

---
 ntfs_parser | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..6267a32 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -766,7 +766,7 @@ def process_indx():
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_file_record = mft.get_file_record_by_number(*MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory()))
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -815,7 +815,7 @@ def process_indx():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_file_record = mft.get_file_record_by_number(*MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory()))
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From e77c844b654a83014ca2bea49168fe34d591a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 30/30] fix: one log record with invalid redo or undo data does
 not abort the log report

---
 ntfs_parser | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 6267a32..b9cec5d 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -354,13 +354,18 @@ def process_log():
 		target_attribute_name = None
 		redo_op = log_record.get_redo_operation()
 		undo_op = log_record.get_undo_operation()
-		redo_data = log_record.get_redo_data()
-		undo_data = log_record.get_undo_data()
 
 		output_lines.append('LSN: {}'.format(log_record.lsn))
 		output_lines.append('Transaction ID: {}'.format(log_record.transaction_id))
 		output_lines.append('Log record, redo operation: {}, undo operation: {}'.format(LogFile.ResolveNTFSOperation(redo_op), LogFile.ResolveNTFSOperation(undo_op)))
 
+		try:
+			redo_data = log_record.get_redo_data()
+			undo_data = log_record.get_undo_data()
+		except LogFile.ClientException:
+			output_lines.append('Warning: invalid redo or undo data')
+			return '\n'.join(output_lines)
+
 		target = log_record.calculate_mft_target_number()
 		if target is not None:
 			output_lines.append('Target (file number): {}'.format(target))
-- 
2.43.0


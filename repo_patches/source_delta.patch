From 0a993841c085486daaf9e72ba867bb5acec094c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 01/23] fix: verify the chunk checksum also when the stored
 digest is missing

A file cut off in front of the last digest was unpacked without an error.
---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From 8678276626023ce67f0ca05955c36a4c41a55452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 02/23] fix: verify the checksum of the last chunk before
 rewriting it in append

A damaged last chunk was silently given a valid checksum.
---
 bloscpack/append.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..6df3916 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -117,7 +118,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                    "Checksum mismatch detected in last chunk, "
+                    "expected: '%s', received: '%s'" %
+                    (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From 6c3b1d5adfc7d4e4fa7aebd8aba43b5e3f9cb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 03/23] fix: reject object dtypes in the metadata when
 unpacking a Numpy array

Filling an object array with file content makes it hold wild pointers.
---
 bloscpack/numpy_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..f1a2a23 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -136,8 +136,11 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        dtype = numpy.dtype(dtype_)
+        if dtype.hasobject:
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=dtype,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
-- 
2.43.0


From 054ed9821a8a94c902d44f32bcca867f17b033ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 04/23] fix: do not write chunks behind the end of an unpacked
 Numpy array

The size of the array comes from the metadata and need not match the chunks.
---
 bloscpack/numpy_io.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index f1a2a23..ec48574 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -31,6 +31,8 @@ from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
                          )
+from .headers import (decode_blosc_header,
+                      )
 from .pretty import (double_pretty_size,
                      )
 from . import log
@@ -143,10 +145,17 @@ class PlainNumpySink(PlainSink):
                                    dtype=dtype,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        self.remaining = self.ndarray.nbytes
 
     def put(self, compressed):
+        nbytes = decode_blosc_header(compressed)['nbytes']
+        if nbytes > self.remaining:
+            raise ValueError(
+                "chunk holds %d bytes, but only %d bytes of the array are left"
+                % (nbytes, self.remaining))
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
-- 
2.43.0


From b8347de6497c3ab807fe27544969e171cd4f708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 05/23] fix: do not return a Numpy array with uninitialised
 elements

Chunks holding fewer bytes than the array were accepted.
---
 bloscpack/numpy_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index ec48574..ef0cb3f 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -316,6 +316,9 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError("the chunks lack %d bytes of the array" %
+                         sink.remaining)
     return sink.ndarray
 
 
-- 
2.43.0


From 76210ae3ed9af68fa88f84643a85d71c1baa135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 06/23] fix: close the file in unpack_ndarray_from_file

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index ef0cb3f..fddd1fb 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -340,8 +340,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0


From 9c61d6c4c9a3ec97606a4898c50ac08a8b15f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 07/23] fix: report errors in the command line tool on Python 3

Exceptions have no 'message' attribute any more.
---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From 0697192f0d35bd34904f98a17572b5970ce1a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 08/23] fix: appending an empty file no longer ends in a
 ZeroDivisionError

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 6df3916..a379978 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -226,8 +226,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From f8abe5ba2d06216a21940d239128af5f25cb8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/23] fix: log.set_level sets the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 7b9fa9eea4952399b168646c1916728b9ffa8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 10/23] fix: record meta_level 0 for metadata that is not
 compressed

As the description of the format demands.
---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..a291e74 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -121,7 +121,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From 3e2d7a0f0a8312d88a619753548af5b0886b83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 11/23] fix: pack_ndarray leaves the blosc_args of the caller
 alone

---
 bloscpack/numpy_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index fddd1fb..e2b0237 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -192,6 +192,7 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From a42abfbb8010b0061a40973e75ff20d93fbc926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 12/23] fix: append leaves the blosc_args of the caller alone

The typesize of the first file was used for all further ones.
---
 bloscpack/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index a379978..2c681aa 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -93,6 +93,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        # do not modify the object of the caller
+        blosc_args = dict(blosc_args)
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
-- 
2.43.0


From 5af4e9d8a10792899d7b6fc5cb0d3f9e7d194e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 13/23] fix: writing metadata leaves the metadata_args of the
 caller alone

Once compression was not beneficial, it was off for all further files.
---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index a291e74..4747756 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -82,6 +82,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    # the codec may be deactivated below, leave the object of the caller alone
+    metadata_args = metadata_args.copy()
     metadata_total = 0
     metadata_total += METADATA_HEADER_LENGTH
     serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
-- 
2.43.0


From e15e12581b6574fc92287a7c9ce071bab1d72e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 14/23] fix: always use the number of threads that is announced

Blosc starts with at most 8 threads, whatever the number of cores.
---
 bloscpack/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..c5bbfb3 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -167,8 +167,7 @@ def process_metadata_args(args):
 
 def process_nthread_arg(args):
     """ Extract and set nthreads. """
-    if args.nthreads != blosc.ncores:
-        blosc.set_nthreads(args.nthreads)
+    blosc.set_nthreads(args.nthreads)
     log.verbose('using %d thread%s' %
                 (args.nthreads, 's' if args.nthreads > 1 else ''))
 
-- 
2.43.0


From 381dd7124aad66d66a4508f17ad3883e938baf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 15/23] fix: name existing functions in the deprecation
 warnings of unpack_ndarray_*

---
 bloscpack/numpy_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index e2b0237..480af6c 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -348,7 +348,7 @@ def unpack_ndarray_from_file(filename):
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
                                  version='0.16.0',
-                                 reason="Use 'pack_ndarray_from_file' instead."
+                                 reason="Use 'unpack_ndarray_from_file' instead."
                                  )
 
 
@@ -377,5 +377,5 @@ def unpack_ndarray_from_bytes(bytes_):
 
 unpack_ndarray_str = deprecated(unpack_ndarray_from_bytes,
                                 version='0.16.0',
-                                reason="Use 'pack_ndarray_from_bytes' instead."
+                                reason="Use 'unpack_ndarray_from_bytes' instead."
                                 )
-- 
2.43.0


From f7c10ad5b4b4eff1c6b76e55f45125c6adbd24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 16/23] fix: append finds the offsets behind metadata that is
 JSON null

---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 2c681aa..7136c90 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -115,7 +115,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if bloscpack_header.metadata else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From 781817af617efa22679b8f62d0c182f061f9c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 17/23] fix: report a chunk size out of range in the command
 line tool

---
 bloscpack/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c5bbfb3..f56d2de 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -302,8 +302,11 @@ def create_parser():
                         value = int(value)
                 except ValueError as ve:
                     log.error('%s error: %s' % (option_string, str(ve)))
-                if value < 0:
+                if value < 1:
                     log.error('%s must be > 0' % option_string)
+                if value > blosc.BLOSC_MAX_BUFFERSIZE:
+                    log.error('%s must be <= %d'
+                              % (option_string, blosc.BLOSC_MAX_BUFFERSIZE))
             setattr(namespace, self.dest, value)
     for p in [compress_parser, c_parser]:
         _inject_blosc_group(p)
-- 
2.43.0


From b0cdb8d00c90c11d34d4c3ec4ecbcebf129cc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 18/23] fix: report a metadata file that is not valid JSON in
 the command line tool

---
 bloscpack/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index f56d2de..92db5e2 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -163,6 +163,9 @@ def process_metadata_args(args):
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
             log.error(str(ioe))
+        except ValueError as ve:
+            log.error("metadata file '%s' is not valid JSON: %s" %
+                      (args.metadata, str(ve)))
 
 
 def process_nthread_arg(args):
-- 
2.43.0


From 689a79fb3005b5bee43df5fe37ce05c106e861d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 19/23] fix: report format version and checksum mismatches in
 blpk info

---
 bloscpack/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 92db5e2..da374ea 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -520,6 +520,8 @@ def main():
         except ValueError as ve:
             log.error(str(ve) + "\n" +
                       "This might not be a bloscpack compressed file.")
+        except (FormatVersionMismatch, ChecksumMismatch) as e:
+            log.error(str(e))
         log.normal(bloscpack_header.pformat())
         if offsets:
             log.normal("'offsets':")
-- 
2.43.0


From 2d0fe6f9ff204cc3fa0c8c974f0bf3d6006f0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 20/23] fix: report refused appends and unreadable input in the
 command line tool

---
 bloscpack/cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index da374ea..e33b1a9 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -481,6 +481,8 @@ def main():
             log.error(str(fvm))
         except ChecksumMismatch as csm:
             log.error(str(csm))
+        except ValueError as ve:
+            log.error(str(ve))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
@@ -497,11 +499,14 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
-        append(original_file, new_file, blosc_args=blosc_args)
-        if metadata is not None:
-            with open(original_file, 'r+b') as fp:
-                _seek_to_metadata(fp)
-                _rewrite_metadata_fp(fp, metadata)
+        try:
+            append(original_file, new_file, blosc_args=blosc_args)
+            if metadata is not None:
+                with open(original_file, 'r+b') as fp:
+                    _seek_to_metadata(fp)
+                    _rewrite_metadata_fp(fp, metadata)
+        except (RuntimeError, ValueError, ChunkingException) as e:
+            log.error(str(e))
     elif args.subcommand in ('info', 'i'):
         try:
             if not path.exists(args.file_):
-- 
2.43.0


From 99516dbeb1df18c9243f2d97754743b0d35c5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 21/23] fix: blpk compress -z with an infinite or empty number
 ended in a traceback

---
 bloscpack/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index e33b1a9..9c837c2 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -298,12 +298,12 @@ def create_parser():
             else:
                 try:
                     # try to get the value as bytes
-                    if value[-1] in SUFFIXES.keys():
+                    if value[-1:] in SUFFIXES.keys():
                         value = reverse_pretty(value)
                     # seems to be intended to be a naked int
                     else:
                         value = int(value)
-                except ValueError as ve:
+                except (ValueError, OverflowError) as ve:
                     log.error('%s error: %s' % (option_string, str(ve)))
                 if value < 1:
                     log.error('%s must be > 0' % option_string)
-- 
2.43.0


From cc6d0ff6ece383a1976a8a49bb7477200e805a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:32 +0000
Subject: [PATCH 22/23] fix: blpk compress with a typesize out of range ended
 in a traceback

---
 bloscpack/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 9c837c2..91f0463 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -464,8 +464,8 @@ def main():
                               blosc_args=blosc_args,
                               bloscpack_args=bloscpack_args,
                               metadata_args=MetadataArgs())
-        except ChunkingException as ce:
-            log.error(str(ce))
+        except (ChunkingException, ValueError) as e:
+            log.error(str(e))
     elif args.subcommand in ['decompress', 'd']:
         log.verbose('getting ready for decompression')
         in_file, out_file = process_decompression_args(args)
-- 
2.43.0


From 7688910b030a7c673b6d4146223ae2b579a15cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:10 +0000
Subject: [PATCH 23/23] fix: refuse files without a container in their metadata
 with NotANumpyArray

unpack_ndarray of a file whose metadata is not a mapping with a 'container'
ended with KeyError or TypeError.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 480af6c..9cf7be4 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -123,7 +123,8 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if not isinstance(metadata, dict) or \
+                metadata.get('container') != 'numpy':
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
-- 
2.43.0


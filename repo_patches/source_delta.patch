From 07cec29bd37efdb65848018c8d51b5aec09c07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 01/41] fix: return the exit status of cli() from the console
 script and python -m yupp

main() dropped the number of failed files, so the process always ended with 0.
---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From 4cc8270266b56033c4a68b17a2d88d1ac63330f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 02/41] fix: do not let the exit status wrap around to zero

64 unsuccessfully processed files gave 256, i.e. exit status 0.
---
 pp/yup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..b11f027 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -591,7 +591,8 @@ def cli( arglist ):
                     break
                 config.passage += 1
 
-        return f_failed << 2
+#       -- exit status is only 8 bits wide, 64 failed files must not look like a success
+        return min( f_failed, 63 ) << 2
 
     else:
 #       -- Read-Eval-Print Loop
-- 
2.43.0


From 47779ce6cf55a7b1d5b6bb7acd359dfd8f9e669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 03/41] fix: do not share the set of seen elements between
 calls of ($unique)

The default argument was created once, a second call lost every element
that any earlier call had returned.
---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..1097004 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2780,7 +2780,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
     'unq': _unq,
 })
 
-- 
2.43.0


From 3fe53697043c619a1a1e1526ab1e5b6717b06ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 04/41] fix: reset built-in names before each translation

Names of imported Python scripts and -D constants stayed in 'builtin' and were
visible in the files translated later by the same process.
---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1097004..b819984 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2784,8 +2784,13 @@ builtin.update({
     'unq': _unq,
 })
 
+#   -- initial state, imported Python scripts and definitions of constants extend 'builtin'
+builtin_initial = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
+    builtin.clear()
+    builtin.update( builtin_initial )
     for x in config.pp_define:
         pair = x.split( ':', 1 )
         rest, atom = ps_atom( pair[ 0 ].strip())
-- 
2.43.0


From 1586c35403eab02f49d26f1a5175086a533afd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 05/41] fix: import each Python script into a module of its own

imp.load_source() reuses the module with the same name from sys.modules, so
a script got the names of another script (or rewrote a standard module).
---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index b819984..14795d0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -899,12 +899,17 @@ def _import_python( name, script ):
             lpath = os.path.join( d, script )
             if os.path.isfile( lpath ):
                 break
+#   -- load_source() executes a script inside the module of the same name if it has already been loaded
+    loaded = sys.modules.pop( name, None )
     try:
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
     except:
         e_type, e, tb = sys.exc_info()
         raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
+    finally:
+        if loaded is not None:
+            sys.modules[ name ] = loaded
 
     yushell.script.append( script )
 
-- 
2.43.0


From c7ddc76164fea1ba64bb9fafd2b2c31e82511f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 06/41] fix: do not hide MemoryError and KeyboardInterrupt
 while unquoting

The bare 'except' turned an interruption into a wrong output text.
---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 14795d0..c19e760 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -854,7 +854,8 @@ def _unq( st ):
 
             return result
 
-        except:                                                                                                        #pylint: disable=bare-except
+        except ( SyntaxError, ValueError, TypeError ):
+#           -- not a valid literal
             pass
 
     return str( st )
-- 
2.43.0


From e006506ad2d59d987035f945887839e7e205e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 07/41] fix: start every cli() call with the first passage

The passage number of the previous call was used by -i TEXT and the REPL.
---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index b11f027..7ba4af6 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -564,6 +564,7 @@ def cli( arglist ):
     if not args.files:
         args.pp_browse = False
     _pp_configure( args.__dict__ )
+    config.passage = 0
 
     if not shell.quiet:
         print( TITLE )
-- 
2.43.0


From 87f31bb884861c2e99508983e11ef81a3bb83608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 08/41] fix: keep line numbers of ordinary Python files in a
 traceback

The frames of files that yupp has not processed were shown one line below.
---
 pylib/yutraceback3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..fdaeb23 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -60,11 +60,10 @@ class StackSummary(list):
 #           -- filename = co.co_filename
             if co.co_filename in substitution.files:
                 filename, shrink = substitution.files[co.co_filename]
+                lineno -= shrink - 1
+                if lineno < 1: lineno = 1
             else:
                 filename = co.co_filename
-                shrink = 0
-            lineno -= shrink - 1
-            if lineno < 1: lineno = 1
 #           --
             name = co.co_name
 
-- 
2.43.0


From c9d7fcae57faddcac18dbcea9ba4c22acae76cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 09/41] fix: give coro-quit a label of its own

__label was not set in the scope of coro-quit, the second coro-quit of a
coroutine duplicated the C label.
---
 lib/coroutine.yu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coroutine.yu b/lib/coroutine.yu
index be885d4..8aa2a86 100644
--- a/lib/coroutine.yu
+++ b/lib/coroutine.yu
@@ -102,6 +102,7 @@ enum {
 
 ($macro coro-quit ()($do ]
 	/* quit */
+	($set __label (L__($emit __label_iter inc)))
 	*co_p = &&($__label);
 
 	($__label):
-- 
2.43.0


From ff59c27424ae22d7e14f4b20c2fc07f616359feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 10/41] fix: do not abort a batch on a file that is impossible
 to decode, encode or open

UnicodeError (and ValueError of an invalid file name) is not IOError, one such
file prevented all the following files of a command line from being processed.
---
 pp/yup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 7ba4af6..e216c4b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,8 +426,8 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
-#       -- e.g. file operation failure
+    except ( IOError, OSError, ValueError ) as e:
+#       -- e.g. file operation failure or text that is impossible to decode or to encode
         log.critical( FAIL, type( e ).__name__, str( e ))
 
     return ( ok, plain, fn_o )
@@ -437,7 +437,7 @@ def _pp_file( fn ):
     try:
 #       -- open input file
         f = open( fn, 'r' )
-    except IOError as e:
+    except ( IOError, ValueError ) as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
         return False
@@ -550,7 +550,7 @@ def proc_file( fn ):
     try:
 #       -- open input file
         f = open( fn, 'r' )
-    except IOError as e:
+    except ( IOError, ValueError ) as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
         return ( False, None )
-- 
2.43.0


From e593193adc5b44f79a44e15b52aafb2f4879de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 11/41] fix: report a failure if the result of translation was
 not saved

An error of backup, writing or chmod was logged, but the file was still counted
as successfully processed: '* OK *', zero exit status, translate() gave True.
Also translate() returns the actual name of the output file.
---
 __init__.py |  5 +++--
 pp/yup.py   | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..d846b31 100644
--- a/__init__.py
+++ b/__init__.py
@@ -65,10 +65,11 @@ def decode_stream( fn, _stream ):
         return ''
 
 #   -- replace the filename of source file in traceback
-    yutraceback.substitution( fn, fn_o, shrink )
+    if fn_o:
+        yutraceback.substitution( fn, fn_o, shrink )
 #   -- check syntax of the preprocessed code
     try:
-        parse( code, fn_o )
+        parse( code, fn_o or fn )
     except SyntaxError:
         yutraceback.print_exc( 0 )
         code = ''
diff --git a/pp/yup.py b/pp/yup.py
index e216c4b..84e0c2d 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -393,6 +393,7 @@ def _output_fn( fn ):
 #   ---------------------------------------------------------------------------
 def _pp_stream( _stream, fn, fn_o ):
     ok = False
+    saved = False
     plain = None
     try:
         text = _stream.read()
@@ -418,19 +419,21 @@ def _pp_stream( _stream, fn, fn_o ):
                     , 'browse': plain.browse
                     , 'offset': plain.offset
                     })))
+            saved = True
         else:
             if plain:
 #               -- plain contains AST
                 fn_o = os.path.splitext( fn_o )[ 0 ] + E_AST
 #               -- output file writing
                 shell_savetofile( fn_o, plain )
+                saved = True
                 log.warn( 'result was saved as AST file' )
 
     except ( IOError, OSError, ValueError ) as e:
 #       -- e.g. file operation failure or text that is impossible to decode or to encode
         log.critical( FAIL, type( e ).__name__, str( e ))
 
-    return ( ok, plain, fn_o )
+    return ( ok, plain, fn_o, saved )
 
 #   ---------------------------------------------------------------------------
 def _pp_file( fn ):
@@ -448,8 +451,9 @@ def _pp_file( fn ):
 #   -- figure out a name for output file
     fn_o = _output_fn( fn )
 
-    ok, plain, fn_o = _pp_stream( f, fn, fn_o )
+    ok, plain, fn_o, saved = _pp_stream( f, fn, fn_o )
     f.close()
+    ok = ok and saved
 
     print()
     if ok:
@@ -459,7 +463,7 @@ def _pp_file( fn ):
             print( PP_O, PP_FILE % fn_o )
             print( OK )
     else:
-        if plain:
+        if plain and saved:
 #           -- plain contains AST
             if shell.type_output:
                 print( plain )
@@ -539,7 +543,10 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
-    ok, data, _ = _pp_stream( _stream, fn, fn_o )
+    ok, data, fn_out, saved = _pp_stream( _stream, fn, fn_o )
+    if ok:
+#       -- name of output file could be changed, None - result is not saved
+        fn_o = fn_out if saved else None
     return ( ok, data, fn_o, yushell.shrink )
 
 #   ---------------------------------------------------------------------------
@@ -556,7 +563,7 @@ def proc_file( fn ):
         return ( False, None )
 
     ok, _, fn_o, _ = proc_stream( f, fn )
-    return ( ok, fn_o )
+    return ( ok and fn_o is not None, fn_o )
 
 #   ---------------------------------------------------------------------------
 def cli( arglist ):
-- 
2.43.0


From d9368b82c16e3eccdbab63a025b8196c50545c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 12/41] fix: put an output file in place only after it is
 completely written

The previous output was moved away first and the new one was written in place:
a crash, full disk or a text that is impossible to encode left an empty or
truncated file under the name of the output (newer than the source, so Python
package treated it as ready to use), a concurrent reader could see a part of it.
The same for AST file.
---
 pp/yup.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 84e0c2d..7c7912b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -219,18 +219,45 @@ def shell_input():
         return REPL_EXIT
 
 #   ---------------------------------------------------------------------------
+_replace = getattr( os, 'replace', os.rename )
+
 def shell_backup( fn ):
     if os.path.isfile( fn ):
         fn_bak = fn + E_BAK
         if os.path.isfile( fn_bak ):
             os.chmod( fn_bak, stat.S_IWRITE )
-            os.remove( fn_bak )
-        os.rename( fn, fn_bak )
+            if _replace is os.rename:
+                os.remove( fn_bak )
+        _replace( fn, fn_bak )
 
 #   ---------------------------------------------------------------------------
-def shell_savetofile( fn, text ):
-    with open( fn, mode='w', encoding='utf8' ) as f:
-        f.write( text )
+def shell_savetofile( fn, text, backup = False ):
+    try:
+        regular = stat.S_ISREG( os.stat( fn ).st_mode )
+    except ( IOError, OSError ):
+        regular = True
+
+    if not regular:
+#       -- e.g. device
+        with open( fn, mode='w', encoding='utf8' ) as f:
+            f.write( text )
+        return
+
+#   -- write the whole text beside and only then put it in place of the previous file
+    fn_tmp = '%s.%d.tmp' % ( fn, os.getpid())
+    try:
+        with open( fn_tmp, mode='w', encoding='utf8' ) as f:
+            f.write( text )
+            f.flush()
+            os.fsync( f.fileno())
+        if backup:
+            shell_backup( fn )
+        _replace( fn_tmp, fn )
+
+    except:
+        if os.path.isfile( fn_tmp ):
+            os.remove( fn_tmp )
+        raise
 
 
 #   * * * * * * * * * * * * * * * * * *
@@ -405,10 +432,8 @@ def _pp_stream( _stream, fn, fn_o ):
 #           -- check if the name of output file is changed
             if feedback.output_file:
                 fn_o = feedback.output_file
-#           -- output file backup
-            shell_backup( fn_o )
-#           -- output file writing
-            shell_savetofile( fn_o, plain )
+#           -- output file backup and writing
+            shell_savetofile( fn_o, plain, backup = True )
             if shell.read_only:
                 os.chmod( fn_o, stat.S_IREAD )
             if isinstance( plain, RESULT ):
-- 
2.43.0


From 13b8243349180a50e9d3b92c745bef9845b169e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 13/41] fix: never leave browse information beside an output
 file it does not match

If writing failed after the output file was replaced, the previous (or truncated)
.json stayed beside the new output.
---
 pp/yup.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 7c7912b..b2faecb 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -74,6 +74,7 @@ E_YUCFG   = '.yuconfig'
 re_e_yu   = re.compile( r'\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )
 E_BAK     = '.bak'
 E_AST     = '.ast'
+E_JSON    = '.json'
 
 QUIET_HELP = """
 do not show usual greeting and other information
@@ -432,18 +433,20 @@ def _pp_stream( _stream, fn, fn_o ):
 #           -- check if the name of output file is changed
             if feedback.output_file:
                 fn_o = feedback.output_file
+#           -- old browse information does not match new output file
+            if isinstance( plain, RESULT ) and os.path.isfile( fn_o + E_JSON ):
+                os.remove( fn_o + E_JSON )
 #           -- output file backup and writing
             shell_savetofile( fn_o, plain, backup = True )
             if shell.read_only:
                 os.chmod( fn_o, stat.S_IREAD )
             if isinstance( plain, RESULT ):
 #               -- browse writing
-                with open( fn_o + '.json', mode='w', encoding='utf8' ) as f:
-                    f.write( str( json.dumps({
-                      'files': sorted( RESULT.files, key=RESULT.files.get )
-                    , 'browse': plain.browse
-                    , 'offset': plain.offset
-                    })))
+                shell_savetofile( fn_o + E_JSON, str( json.dumps({
+                  'files': sorted( RESULT.files, key=RESULT.files.get )
+                , 'browse': plain.browse
+                , 'offset': plain.offset
+                })))
             saved = True
         else:
             if plain:
-- 
2.43.0


From eb51169eefe99ba9b50e2b9380b7b0e6a12afd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 14/41] fix: read back an output file in the encoding it was
 written in

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index b2faecb..75fb3f8 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -561,7 +561,7 @@ def proc_stream( _stream, fn ):
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
 #               -- ...just read output file
-                with open( fn_o, 'r' ) as f:
+                with open( fn_o, 'r', encoding='utf8' ) as f:
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-- 
2.43.0


From a3f93afcc3193fb640f1503398a2599720b9b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 15/41] fix: recognise 'coding=yupp' in the first line of a
 Python source

The second line of such a source was preprocessed twice.
---
 __init__.py | 3 ++-
 pp/yup.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/__init__.py b/__init__.py
index d846b31..f1ee415 100644
--- a/__init__.py
+++ b/__init__.py
@@ -26,6 +26,7 @@ from encodings import utf_8, search_function
 from .pp.yulic import VERSION, DESCRIPTION, HOLDER, EMAIL
 from .pp.yup import cli
 from .pp.yup import proc_file as translate
+from .pp.yup import re_coding
 
 #   ---------------------------------------------------------------------------
 __pp_name__      = 'yupp'
@@ -44,7 +45,7 @@ def read_header( fn ):
     try:
         with open( fn, 'r' ) as f:
             header = f.readline()
-            if 'coding:' not in header:
+            if not re_coding.search( header ):
                 header += f.readline()
     except:
         pass
diff --git a/pp/yup.py b/pp/yup.py
index 75fb3f8..75d4ef6 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -72,6 +72,7 @@ TR_FILE   = 'trace.file = %s\n'
 E_YUGEN   = '.yugen'
 E_YUCFG   = '.yuconfig'
 re_e_yu   = re.compile( r'\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )
+re_coding = re.compile( r'coding[:=]', flags = re.IGNORECASE )
 E_BAK     = '.bak'
 E_AST     = '.ast'
 E_JSON    = '.json'
@@ -565,7 +566,7 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if 'coding:' in _stream.readline() else 2 )
+                return ( True, data, fn_o, 1 if re_coding.search( _stream.readline()) else 2 )
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-- 
2.43.0


From 93bfdbe82fe48f26a3664dd8b4e46e8d54327dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 16/41] fix: preprocess a file again if its configuration
 script is changed

Only the source and the listed dependencies were compared with the output file.
---
 pp/yup.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 75d4ef6..900f97b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -189,6 +189,11 @@ def _exec_yuconfig_script( fn_cfg, context ):
             log.error( 'unable to execute configuration script\n'
             'File "%s"\n%s: %s', fn_cfg, type( e ).__name__, str( e ))
 
+#   ---------------------------------------------------------------------------
+def yuconfig_scripts( fn ):
+#   -- global configuration, configuration for concrete source file
+    return ( '' + E_YUCFG, os.path.splitext( fn )[ 0 ] + E_YUCFG )
+
 #   ---------------------------------------------------------------------------
 def shell_parse_yuconfig( fn ):
 #   -- default configuration
@@ -196,10 +201,8 @@ def shell_parse_yuconfig( fn ):
     context[ 'directory' ] = []
     context[ 'dependency' ] = []
     context[ 'pp_define' ] = []
-#   -- global configuration
-    _exec_yuconfig_script( '' + E_YUCFG, context )
-#   -- configuration for concrete source file
-    _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )
+    for fn_cfg in yuconfig_scripts( fn ):
+        _exec_yuconfig_script( fn_cfg, context )
     cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}
     if isinstance( context[ 'directory' ], list ):
         cfg[ 'directory' ] = context[ 'directory' ]
@@ -556,8 +559,9 @@ def proc_stream( _stream, fn ):
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-            deps = cfg.get( 'dependency', [])
-            deps.append( fn )
+            deps = cfg.get( 'dependency', []) + [ fn ]
+#           -- configuration scripts are sources too
+            deps.extend( c for c in yuconfig_scripts( fn ) if os.path.isfile( c ))
             t = os.path.getmtime( fn_o )
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
-- 
2.43.0


From f201f97693cbb4325a6193b2b61afe0133f50341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 17/41] fix: print a failure of the codec instead of raising
 AttributeError

yutraceback3 lost 'print_exc': an exception in preprocessing or a syntax error in
the preprocessed code ended in AttributeError out of the decoder.
---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index fdaeb23..d2a3aa8 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -13,7 +13,7 @@ import linecache
 import sys
 
 import traceback
-from traceback import FrameSummary
+from traceback import FrameSummary, print_exc
 
 import os.path
 import functools
-- 
2.43.0


From 1564237102c378c4420c8e7db9d395eb7ff025e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 18/41] fix: do not raise AttributeError if the very first
 translated file is unreadable

An error of reading comes before the preprocessor state is created.
---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 900f97b..6dd17b3 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -580,7 +580,7 @@ def proc_stream( _stream, fn ):
     if ok:
 #       -- name of output file could be changed, None - result is not saved
         fn_o = fn_out if saved else None
-    return ( ok, data, fn_o, yushell.shrink )
+    return ( ok, data, fn_o, yushell.shrink if ok else 0 )
 
 #   ---------------------------------------------------------------------------
 def proc_file( fn ):
-- 
2.43.0


From 413731f80f209c57e270e026a53dc03f60f54c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 19/41] fix: do not inherit -q, --no-read-only and --type-file
 from a previous cli() call

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 6dd17b3..e33c29b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -115,13 +115,13 @@ def shell_parse_cli_arguments( arglist ):
     )
     argp.add_argument( '--version', action = 'version', version = '%(app)s %(version)s' % { 'app': APP, 'version': VERSION })
     argp.add_argument( 'files', metavar = 'FILE', type = str, nargs = '*', help = "an input file" )
-    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = shell.quiet
+    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = QUIET
     , help = QUIET_HELP )
     argp.add_argument( '-d', action = 'append', metavar = 'DIR', dest = 'directory'
     , help = "an import directory" )
     argp.add_argument( '-o', '--output', metavar = 'DIR', dest = 'output_dir', default = ''
     , help = "an output directory" )
-    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = shell.read_only
+    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = READ_ONLY
     , help = READ_ONLY_HELP )
 #   -- preprocessor options
     argp.add_argument( '--pp-skip-comments', metavar = 'TYPE', type = int, dest = 'pp_skip_comments'
@@ -151,7 +151,7 @@ def shell_parse_cli_arguments( arglist ):
     argp.add_argument( '-b', '--traceback', metavar = 'TYPE', type = int, dest = 'traceback'
     , default = TRACEBACK, choices = list( range( 0, 3 ))
     , help = TRACEBACK_HELP )
-    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = shell.type_output
+    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = TYPE_OUTPUT
     , help = TYPE_OUTPUT_HELP )
     argp.add_argument( '-i', '--input', metavar = 'TEXT', type = str, dest = 'text', default = ''
     , help = "an input text (used by Web Console)" )
-- 
2.43.0


From a4f0aa35f686232fdd6fe547c07f54ad8b156d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:22 +0000
Subject: [PATCH 20/41] fix: do not inherit an output directory from a previous
 cli() call in translate()

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index e33c29b..bb2033b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -551,11 +551,11 @@ def proc_stream( _stream, fn ):
     """
 #   -- read shebang and magic comment again
     _stream.seek( 0 )
-#   -- figure out a name for output file
-    fn_o = _output_fn( fn )
 
     cfg = shell_parse_yuconfig( fn )
     _pp_configure( cfg )
+#   -- figure out a name for output file
+    fn_o = _output_fn( fn )
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-- 
2.43.0


From 3234aaf2fc0fa15c14bae9d465d0d11ed2d37fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 21/41] fix: make 'coding: yupp.<encoding>' work

codecs.lookup() returns CodecInfo, its attributes are incrementalencoder,
streamwriter and streamreader.
---
 __init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/__init__.py b/__init__.py
index f1ee415..e17a992 100644
--- a/__init__.py
+++ b/__init__.py
@@ -113,12 +113,12 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.StreamReader ):
+    class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
             from io import StringIO
 
-            basecodec.StreamReader.__init__( self, *args, **kwargs )
+            basecodec.streamreader.__init__( self, *args, **kwargs )
             self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
 
     return StreamReader
@@ -146,15 +146,15 @@ def yupp_search_function( coding ):
             return None
 
 #       -- default encoding: UTF-8
-        basecodec = utf_8
+        basecodec = utf_8.getregentry()
 
     return codecs.CodecInfo(
         name=__pp_name__,
         encode=basecodec.encode,
         decode=decoder_factory( basecodec ),
-        incrementalencoder=basecodec.IncrementalEncoder,
+        incrementalencoder=basecodec.incrementalencoder,
         incrementaldecoder=incremental_decoder_factory( basecodec ),
-        streamwriter=basecodec.StreamWriter,
+        streamwriter=basecodec.streamwriter,
         streamreader=stream_decoder_factory( basecodec )
     )
 
-- 
2.43.0


From 4e14377fd1a2eaab9b3aef9037d3e620eadd939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:08 +0000
Subject: [PATCH 22/41] fix: read the header of a script in the encoding of the
 script

read_header() decoded the source in the default encoding and lost the header
when it failed, so the code was placed differently every time.
---
 __init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index e17a992..65b9f06 100644
--- a/__init__.py
+++ b/__init__.py
@@ -37,13 +37,15 @@ __author_email__ = EMAIL
 __url__          = 'http://github.com/in4lio/yupp/'
 
 #   ---------------------------------------------------------------------------
-def read_header( fn ):
+def read_header( fn, encoding='utf-8' ):
     '''
     Read shebang and magic comment from the source file.
     '''
+    from io import open
+
     header = ''
     try:
-        with open( fn, 'r' ) as f:
+        with open( fn, 'r', encoding=encoding, errors='replace' ) as f:
             header = f.readline()
             if not re_coding.search( header ):
                 header += f.readline()
@@ -90,7 +92,7 @@ def decoder_factory( basecodec ):
 
         data, bytesencoded = basecodec.decode( input, errors )
         fn = argv[ 0 ]
-        return decode_stream( fn, StringIO( read_header( fn ) + data )), bytesencoded
+        return decode_stream( fn, StringIO( read_header( fn, basecodec.name ) + data )), bytesencoded
 
     return decode
 
-- 
2.43.0


From c8b7abceeb92d4d06f162c9222c6131219f645dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:08 +0000
Subject: [PATCH 23/41] fix: map tracebacks of a script started by a symbolic
 link or by ./name

Python does not resolve symbolic links in co_filename, and CPython does not
even normalise it.
---
 pylib/yutraceback3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index d2a3aa8..5f4ab3e 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -19,7 +19,9 @@ import os.path
 import functools
 
 def substitution(fn, fn_o, shrink):
-    substitution.files[os.path.realpath(fn)] = (os.path.realpath(fn_o), shrink)
+#   -- the name of a script in its code depends on the version of Python
+    for name in (fn, os.path.join(os.getcwd(), fn), os.path.abspath(fn), os.path.realpath(fn)):
+        substitution.files[name] = (os.path.realpath(fn_o), shrink)
 
 substitution.files = dict()
 
-- 
2.43.0


From a03be4018520827a4d8876d992c11cc17aba84a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 24/41] fix: name the actual encoding in the magic comment of a
 generated file

The generated file is always UTF-8, but it kept the encoding of the source in
its magic comment, so Python misread it (also lines of it in a traceback).
---
 pp/yugen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c19e760..368bb4c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -827,6 +827,7 @@ re_CHR = re.compile( r"^'(?:\\.|[^\\'])*'" )
 re_CODING = re.compile( r'coding[:=][ \t]*yupp(\.[-_a-zA-Z0-9]+)?(?:\W|$)', re.IGNORECASE )
 ps_CODING = 'yupp.'
 l_CODING = len( ps_CODING )
+OUTPUT_CODING = 'utf-8'
 
 E_PY = '.py'
 #   -----------------------------------
@@ -1496,9 +1497,10 @@ def ps_header_python( sou, depth = 0 ):
 #                   -- encoding is absent - delete an entire magic comment
                     return ( rest, header )
 
-#               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
-                header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
+#               -- replace 'yupp.<encoding>' by an encoding of the generated file
+                i, end = mch.span( 1 )
+                header.extend(( REMARK( leg[ :( i - l_CODING + 1 )])
+                , REMARK( OUTPUT_CODING, leg.input_file, leg.pos + i + 1 ), REMARK( leg[ end: ])))
                 return ( rest, header )
 
 #           -- save shebang and goto the next line
-- 
2.43.0


From 238392e5845cfad62a1aa692d811be81683e0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 25/41] fix: do not double the header if Python decodes the
 whole source at once

PyPy gives the decoder the whole script. The header was added to it again, so
the generated file declared the encoding 'yupp' itself, and the lines in
tracebacks were shifted if there was a shebang.
---
 __init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index 65b9f06..f5f9c77 100644
--- a/__init__.py
+++ b/__init__.py
@@ -54,7 +54,7 @@ def read_header( fn, encoding='utf-8' ):
     return header
 
 #   ---------------------------------------------------------------------------
-def decode_stream( fn, _stream ):
+def decode_stream( fn, _stream, whole=False ):
     from ast import parse
     from .pp.yup import proc_stream
     from .pylib import yutraceback
@@ -69,7 +69,7 @@ def decode_stream( fn, _stream ):
 
 #   -- replace the filename of source file in traceback
     if fn_o:
-        yutraceback.substitution( fn, fn_o, shrink )
+        yutraceback.substitution( fn, fn_o, 1 if whole else shrink )
 #   -- check syntax of the preprocessed code
     try:
         parse( code, fn_o or fn )
@@ -92,7 +92,10 @@ def decoder_factory( basecodec ):
 
         data, bytesencoded = basecodec.decode( input, errors )
         fn = argv[ 0 ]
-        return decode_stream( fn, StringIO( read_header( fn, basecodec.name ) + data )), bytesencoded
+        header = read_header( fn, basecodec.name )
+#       -- PyPy decodes the whole source at once, CPython does not pass the header of a script
+        whole = bool( header ) and data.replace( '\r\n', '\n' ).startswith( header )
+        return decode_stream( fn, StringIO( data if whole else header + data ), whole ), bytesencoded
 
     return decode
 
-- 
2.43.0


From c4481afd31f1c423d3d4b7195479bace801aebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 26/41] fix: do not skip the backup if the previous output is
 impossible to examine

os.path.isfile() says False on any error of stat(), so after a temporary error
the previous output was replaced without a backup.
---
 pp/yup.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index bb2033b..21e6d7e 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -22,6 +22,7 @@ from builtins import range
 from builtins import open
 
 import os
+import errno
 import sys
 import re
 import json
@@ -226,8 +227,19 @@ def shell_input():
 #   ---------------------------------------------------------------------------
 _replace = getattr( os, 'replace', os.rename )
 
+def _isfile( fn ):
+#   -- unlike os.path.isfile() does not take a failure for an absent file
+    try:
+        return stat.S_ISREG( os.stat( fn ).st_mode )
+
+    except ( IOError, OSError ) as e:
+        if e.errno not in ( errno.ENOENT, errno.ENOTDIR ):
+            raise
+        return False
+
+#   ---------------------------------------------------------------------------
 def shell_backup( fn ):
-    if os.path.isfile( fn ):
+    if _isfile( fn ):
         fn_bak = fn + E_BAK
         if os.path.isfile( fn_bak ):
             os.chmod( fn_bak, stat.S_IWRITE )
@@ -438,7 +450,7 @@ def _pp_stream( _stream, fn, fn_o ):
             if feedback.output_file:
                 fn_o = feedback.output_file
 #           -- old browse information does not match new output file
-            if isinstance( plain, RESULT ) and os.path.isfile( fn_o + E_JSON ):
+            if isinstance( plain, RESULT ) and _isfile( fn_o + E_JSON ):
                 os.remove( fn_o + E_JSON )
 #           -- output file backup and writing
             shell_savetofile( fn_o, plain, backup = True )
-- 
2.43.0


From 8236f61574ff5ce6fb956f40cd20e3923a2390e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 27/41] fix: order variables of a Python expression
 independently of the hash seed

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 368bb4c..3e79d7d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3655,7 +3655,8 @@ def yueval( node, env = ENV(), depth = 0 ):
                 infix_visitor.visit( tree )
 
                 env_l = ENV()
-                for name in infix_visitor.names:
+#               -- in the same order for any hash seed
+                for name in sorted( infix_visitor.names ):
                     val = env.lookup( [], name )
                     if val is not NOT_FOUND:
                         env_l[ ATOM( name )] = VAR( [], ATOM( name ))
-- 
2.43.0


From b665762e00bb28f38e0c8b44e71a7f31c50cb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 28/41] fix: do not fail if another process translates the same
 source at the same time

---
 pp/yup.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 21e6d7e..883cf22 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -237,6 +237,16 @@ def _isfile( fn ):
             raise
         return False
 
+#   ---------------------------------------------------------------------------
+def _if_exists( func, *args ):
+#   -- another process that translates the same source could have already moved or removed the file
+    try:
+        func( *args )
+
+    except ( IOError, OSError ) as e:
+        if e.errno != errno.ENOENT:
+            raise
+
 #   ---------------------------------------------------------------------------
 def shell_backup( fn ):
     if _isfile( fn ):
@@ -245,7 +255,7 @@ def shell_backup( fn ):
             os.chmod( fn_bak, stat.S_IWRITE )
             if _replace is os.rename:
                 os.remove( fn_bak )
-        _replace( fn, fn_bak )
+        _if_exists( _replace, fn, fn_bak )
 
 #   ---------------------------------------------------------------------------
 def shell_savetofile( fn, text, backup = False ):
@@ -451,11 +461,11 @@ def _pp_stream( _stream, fn, fn_o ):
                 fn_o = feedback.output_file
 #           -- old browse information does not match new output file
             if isinstance( plain, RESULT ) and _isfile( fn_o + E_JSON ):
-                os.remove( fn_o + E_JSON )
+                _if_exists( os.remove, fn_o + E_JSON )
 #           -- output file backup and writing
             shell_savetofile( fn_o, plain, backup = True )
             if shell.read_only:
-                os.chmod( fn_o, stat.S_IREAD )
+                _if_exists( os.chmod, fn_o, stat.S_IREAD )
             if isinstance( plain, RESULT ):
 #               -- browse writing
                 shell_savetofile( fn_o + E_JSON, str( json.dumps({
-- 
2.43.0


From 9c4280a39aec0e05566bf5fa4296fe934a83e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 29/41] fix: do not take an unreadable source for one without a
 header

---
 __init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/__init__.py b/__init__.py
index f5f9c77..9403c8a 100644
--- a/__init__.py
+++ b/__init__.py
@@ -41,6 +41,7 @@ def read_header( fn, encoding='utf-8' ):
     '''
     Read shebang and magic comment from the source file.
     '''
+    from errno import ENOENT, ENOTDIR, EISDIR
     from io import open
 
     header = ''
@@ -49,8 +50,10 @@ def read_header( fn, encoding='utf-8' ):
             header = f.readline()
             if not re_coding.search( header ):
                 header += f.readline()
-    except:
-        pass
+    except ( IOError, OSError ) as e:
+#       -- there is no source file e.g. "python -c"
+        if e.errno not in ( ENOENT, ENOTDIR, EISDIR ):
+            raise
     return header
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From c268446032f2f8063e8e1c8944a0229cf34337ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 30/41] fix: tracing of the previous translation goes on in the
 definitions of the next one

---
 pp/yugen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3e79d7d..f907322 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2690,6 +2690,8 @@ def yushell( text, _input = None, _output = None ):
         yushell.pp_skip_comments = PP_SKIP_PYTHON_COMMENTS if yushell.output_python else PP_SKIP_C_COMMENTS
 #   -- the number of deleted lines at the beginning (Python)
     yushell.shrink = 0
+#   -- the stage of the previous translation is over
+    trace.set_current( TRACE_STAGE_NONE )
     _update_builtin_from_config()
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From 1db00c1be0eb9ab99060cb345758e68ecb001882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 31/41] fix: endless recursion in a source or a script killed
 the process (SIGSEGV) instead of failing the translation

---
 pp/yugen.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index f907322..c866081 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -48,7 +48,19 @@ from functools import reduce
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import,unused-wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
 
-sys.setrecursionlimit( 2 ** 20 )
+#   ---------------------------------------------------------------------------
+def _recursion_limit():
+    try:
+        import resource                                                                                                #pylint: disable=import-outside-toplevel
+
+        stack = resource.getrlimit( resource.RLIMIT_STACK )[ 0 ]
+    except ( ImportError, OSError, ValueError ):
+        return 2 ** 20
+
+#   -- endless recursion must come to RecursionError before the stack is over
+    return min( 2 ** 20, stack // 2 ** 10 ) if stack > 0 else 2 ** 20
+
+sys.setrecursionlimit( _recursion_limit())
 
 #   ---------------------------------------------------------------------------
 def config():
-- 
2.43.0


From a8553aca2ff001dab4c1390c5d0007f5e3b9cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 32/41] fix: browse information missed C strings and
 characters, what followed a definition was attributed to a wrong place

---
 pp/yugen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c866081..c143ed5 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2082,14 +2082,12 @@ def ps_quote( sou, depth = 0 ):
 #   ---- C string
         mch = re_STR.match( sou )
         if mch:
-            leg = mch.group( 0 )
-            return ( sou[ mch.end(): ], STR( leg ))
+            return ( sou[ mch.end(): ], STR( sou[ :mch.end()]))
 
 #   ---- chr
         mch = re_CHR.match( sou )
         if mch:
-            leg = mch.group( 0 )
-            return ( sou[ mch.end(): ], STR( leg ))
+            return ( sou[ mch.end(): ], STR( sou[ :mch.end()]))
 
 #   ---- (` | ($quote
     pos = ( l_BQUOTE if sou[ :l_BQUOTE ] == ps_BQUOTE else l_QUOTE if sou[ :l_QUOTE ] == ps_QUOTE else 0 )
-- 
2.43.0


From 64c876e4404ba7e731b80bc2c93c954cb6102513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 33/41] fix: name the import (and its place) if the exception
 is impossible to create with a message, e.g. a library that is impossible to
 decode

---
 pp/yugen.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c143ed5..152d113 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -23,7 +23,7 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from builtins import int
-from future.utils import raise_
+from future.utils import raise_ as future_raise_
 from future.utils import native_str
 import sys
 import os
@@ -48,6 +48,22 @@ from functools import reduce
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import,unused-wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
 
+#   ---------------------------------------------------------------------------
+def raise_( e_type, e, tb ):
+    if not isinstance( e, BaseException ):
+#       -- some exceptions are impossible to create with a message only (e.g. UnicodeDecodeError), lose it
+#       -- or to raise from a generator, take the nearest parent class instead
+        for cls in e_type.__mro__:
+            try:
+                exc = cls( e )
+                if not issubclass( cls, StopIteration ) and ( str( exc ) in ( e, repr( e ))):
+                    e_type, e = cls, exc
+                    break
+            except Exception:                                                                                          #pylint: disable=broad-except
+                pass
+
+    future_raise_( e_type, e, tb )
+
 #   ---------------------------------------------------------------------------
 def _recursion_limit():
     try:
-- 
2.43.0


From 7f7fdcca8852bd1a54ef3d3facc90ce452bca70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 34/41] fix: a configuration script that can not be examined is
 reported, not ignored

---
 pp/yup.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 883cf22..a5f03fb 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -183,12 +183,12 @@ def shell_parse_cli_arguments( arglist ):
 
 #   ---------------------------------------------------------------------------
 def _exec_yuconfig_script( fn_cfg, context ):
-    if os.path.isfile( fn_cfg ):
-        try:
+    try:
+        if _isfile( fn_cfg ):
             execfile( fn_cfg, context )
-        except Exception as e:                                                                                         #pylint: disable=broad-except
-            log.error( 'unable to execute configuration script\n'
-            'File "%s"\n%s: %s', fn_cfg, type( e ).__name__, str( e ))
+    except Exception as e:                                                                                             #pylint: disable=broad-except
+        log.error( 'unable to execute configuration script\n'
+        'File "%s"\n%s: %s', fn_cfg, type( e ).__name__, str( e ))
 
 #   ---------------------------------------------------------------------------
 def yuconfig_scripts( fn ):
@@ -583,7 +583,7 @@ def proc_stream( _stream, fn ):
         try:
             deps = cfg.get( 'dependency', []) + [ fn ]
 #           -- configuration scripts are sources too
-            deps.extend( c for c in yuconfig_scripts( fn ) if os.path.isfile( c ))
+            deps.extend( c for c in yuconfig_scripts( fn ) if _isfile( c ))
             t = os.path.getmtime( fn_o )
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
-- 
2.43.0


From 89e6c59203433c97b68516a3f67b08c389bcc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 35/41] fix: editor plugin: xrange() does not exist in Python 3
 (Sublime Text 3)

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index 8ba5961..f867d99 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -77,7 +77,7 @@ def open_file( fn ):
         l_files = len( file_data[ fn ][ 'files' ])
         dirs = [ os.path.dirname( fn )]
         file_data[ fn ][ 'paths' ] = [ '' ] * l_files
-        for i in xrange( l_files ):
+        for i in range( l_files ):
             search_file( fn, dirs, i )
 
         file_state[ fn ] = STATE_FRUIT
-- 
2.43.0


From fc06936d0af091e7d3f623488c9bc0143bfe882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 36/41] fix: editor plugin: the shift inside the first browse
 entry and from the origin start

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index f867d99..8caeab9 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -235,7 +235,7 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
                 dirs = self.view.window().folders()
                 # search for original file in project directories
                 fn_to = search_file( fn_fruit, dirs, inx )
-                if ( i > 0 ) and ( browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to > 0 ):
+                if ( i == 0 or browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to >= 0 ):
                     # relative shift only in case of single jump
                     # and if origin is not ($macro)
                     pos_to += ( pos_fruit + delta - pos_found )
-- 
2.43.0


From 1e4f8b840e409e1886b382bb51e04ce873eba976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 37/41] fix: editor plugin: survive removed and damaged files,
 changes while loading, closing one of a pair

---
 sublime_text/Data/Packages/yupp/yupp.py | 82 +++++++++++++++++--------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index 8caeab9..41eee40 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -64,14 +64,40 @@ def search_file( fruit, dirs, inx ):
 
     return ''
 
+#   ---------------------------------------------------------------------------
+def modified( fn ):
+    """
+    Time of last modification of the file and its browse, None - there is no file.
+    """
+    def mtime( fn ):
+        try:
+            return os.path.getmtime( fn )
+        except OSError:
+            return None
+
+    return ( mtime( fn ), mtime( fn + '.json' ))
+
+#   ---------------------------------------------------------------------------
+def load_browse( fn ):
+    """
+    Load browse (*.json), None - there is no browse or it is damaged.
+    """
+    try:
+        with open( fn + '.json' ) as f:
+            data = json.load( f )
+        return dict(( key, data[ key ]) for key in ( 'files', 'browse', 'offset' ))
+    except ( IOError, OSError, ValueError, KeyError, TypeError ):
+        return None
+
 #   ---------------------------------------------------------------------------
 def open_file( fn ):
+    # before loading - the file could be generated again meanwhile
+    file_mtime[ fn ] = modified( fn )
+
     # check browse (*.json)
-    fn_json = fn + '.json'
-    if os.path.isfile( fn_json ):
-        # load browse
-        with open( fn_json ) as f:
-            file_data[ fn ] = json.load( f )
+    data = load_browse( fn )
+    if data is not None:
+        file_data[ fn ] = data
 
         # search for original files in fruit's directory
         l_files = len( file_data[ fn ][ 'files' ])
@@ -81,7 +107,7 @@ def open_file( fn ):
             search_file( fn, dirs, i )
 
         file_state[ fn ] = STATE_FRUIT
-        file_mtime[ fn ] = os.path.getmtime( fn )
+        file_jump.pop( fn, None )
 
         # check row (*.txt)
         if os.path.isfile( fn + '.txt' ):
@@ -114,16 +140,13 @@ def open_file( fn ):
 
 #   ---------------------------------------------------------------------------
 def close_file( fn ):
-    if file_state[ fn ] == STATE_FRUIT:
+    if file_state.get( fn ) == STATE_FRUIT:
+        # origins of other fruits are still in use
+        in_use = [ x for fruit in file_data if fruit != fn for x in file_data[ fruit ][ 'paths' ]]
         for x in file_data[ fn ][ 'paths' ]:
-            file_state.pop( x, None )
-            file_data.pop( x, None )
-            file_jump.pop( x, None )
-
-    elif file_state[ fn ] == STATE_NO_BROWSE:
-        origin = file_jump[ fn ]
-        file_state.pop( origin, None )
-        file_jump.pop( origin, None )
+            if x not in in_use:
+                file_state.pop( x, None )
+                file_jump.pop( x, None )
 
     file_state.pop( fn, None )
     file_data.pop( fn, None )
@@ -142,12 +165,11 @@ class yu_browse( sublime_plugin.EventListener ):
         # readonly
         view.set_read_only( not os.access( fn, os.W_OK ))
 
-        if fn in file_state:
+        if file_state.get( fn ) == STATE_ORIGIN:
             # someone counts on me...
-            if file_state[ fn ] == STATE_ORIGIN:
-                if fn in file_jump:
-                    # workaround: show_at_center() does not work from goto() if file has not been opened
-                    view.show_at_center( sublime.Region( min( file_jump[ fn ].keys())))
+            if fn in file_jump:
+                # workaround: show_at_center() does not work from goto() if file has not been opened
+                view.show_at_center( sublime.Region( min( file_jump[ fn ].keys())))
             return
 
         open_file( fn )
@@ -155,7 +177,7 @@ class yu_browse( sublime_plugin.EventListener ):
 #   -----------------------------------
     def on_close( self, view ):
         fn = view.file_name()
-        if fn not in file_state:
+        if fn not in file_state and fn not in file_mtime:
             # ignore file
             return
 
@@ -169,8 +191,9 @@ class yu_browse( sublime_plugin.EventListener ):
             # ignore file
             return
 
-        if file_mtime[ fn ] != os.path.getmtime( fn ):
-            close_file( fn )
+        if file_state.get( fn ) != STATE_ORIGIN and file_mtime[ fn ] != modified( fn ):
+            if file_state.get( fn ) != STATE_NO_BROWSE:
+                close_file( fn )
             open_file( fn )
 
 #   ---------------------------------------------------------------------------
@@ -196,11 +219,16 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
 
         state = file_state[ fn ]
         if state == STATE_NO_BROWSE:
-            self.view.window().open_file( file_jump[ fn ])
+            fn_to = file_jump[ fn ]
+            if fn_to not in file_state:
+                # the other file has been closed
+                file_state[ fn_to ] = STATE_NO_BROWSE
+                file_jump[ fn_to ] = fn
+            self.view.window().open_file( fn_to )
 
         else:
             pos = self.view.sel()[ 0 ].begin()
-            if fn in file_jump:
+            if state == STATE_ORIGIN and fn in file_jump:
                 if pos in file_jump[ fn ]:
                     fn_to, pos_to = file_jump[ fn ][ pos ]
                     # jump to origin or back to fruit
@@ -260,9 +288,9 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
                     fn_to = search_file( fn_fruit, dirs, inx )
                     if fn_to:
                         # previous jump to origin
-                        file_state[ fn_to ] = STATE_ORIGIN
-                        if fn_to not in file_jump:
+                        if file_state.get( fn_to ) != STATE_ORIGIN or fn_to not in file_jump:
                             file_jump[ fn_to ] = {}
+                        file_state[ fn_to ] = STATE_ORIGIN
                         file_jump[ fn_to ][ pos_to ] = ( fn, pos )
                         fn = fn_to
                         pos = pos_to
-- 
2.43.0


From 114ec01e4dd3ab9af3725de19c707429b4a44834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 38/41] fix: logging level of the previous source hid a failing
 configuration script

---
 pp/yup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pp/yup.py b/pp/yup.py
index a5f03fb..6531c14 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -197,6 +197,8 @@ def yuconfig_scripts( fn ):
 
 #   ---------------------------------------------------------------------------
 def shell_parse_yuconfig( fn ):
+#   -- logging level of the previous source must not hide a failure of configuration scripts
+    log.setLevel( LOG_LEVEL * LOG_LEVEL__SCALE_ )
 #   -- default configuration
     context = yuconfig_defaults()
     context[ 'directory' ] = []
-- 
2.43.0


From 37cc59470423482ceb9eb5df0941552d46272cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 39/41] fix: translate() after a batch began with the last
 passage of it

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index 6531c14..caf58ae 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -578,6 +578,7 @@ def proc_stream( _stream, fn ):
 
     cfg = shell_parse_yuconfig( fn )
     _pp_configure( cfg )
+    config.passage = 0
 #   -- figure out a name for output file
     fn_o = _output_fn( fn )
 #   -- check that we can skip re-preprocessing
-- 
2.43.0


From 2c31ca1bbc164c7a42ed806a91cf53e0e17ee400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 40/41] fix: a shorter list of passages cut off the passes of a
 longer one

---
 pp/yugen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 152d113..92e62a5 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3282,7 +3282,9 @@ def yueval( node, env = ENV(), depth = 0 ):
                                 + node.fn.atom.loc())
 
                             passage_max = len( node.args[ 0 ]) - 1
-                            feedback.repeat = config.passage < passage_max
+#                           -- the longest list determines the number of passages, not the last one
+                            if config.passage < passage_max:
+                                feedback.repeat = True
                             return node.args[ 0 ][ config.passage ] if config.passage <= passage_max else None
 
 #   ---- APPLY -- BUILTIN -- function
-- 
2.43.0


From c4d6dfccf81bd02c63d55f87b691c06e331c2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 41/41] fix: codecs.open( ..., encoding='yupp' ) gave nothing
 (Python 3)

---
 __init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/__init__.py b/__init__.py
index 9403c8a..3c7ca08 100644
--- a/__init__.py
+++ b/__init__.py
@@ -121,13 +121,16 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.streamreader ):
+    class StreamReader( utf_8.StreamReader ):
 
-        def __init__( self, *args, **kwargs ):
-            from io import StringIO
+        def __init__( self, stream, errors='strict' ):
+            from io import BytesIO, StringIO
 
-            basecodec.streamreader.__init__( self, *args, **kwargs )
-            self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
+            stream.seek( 0 )
+            data, _ = basecodec.decode( stream.read(), errors )
+            code = decode_stream( stream.name, StringIO( data ))
+#           -- the base class reads bytes
+            utf_8.StreamReader.__init__( self, BytesIO( code.encode( 'utf-8' )), errors )
 
     return StreamReader
 
-- 
2.43.0


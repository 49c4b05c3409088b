From 749e19d1b5be7508f4841718fd81b71a113491a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 01/21] fix: find the enclosing loop of a 'Continue' statement

The parent walk stopped immediately for any context that is not top-level, so
every 'Continue' was reported as an invalid statement.
---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From e43bad5a7e9e326cc8e0e048702f397ea6d5b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 02/21] fix: execute 'Default' only once when a case falls
 through into it

Without a 'Break' in the last case and in 'Default', the fallthrough flag stayed
set and 'Default' was executed forever.
---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..48b3590 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -925,6 +925,10 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # 'Default' is the last case, there is nothing to fall through to:
+            snext._fallthrough = False
+
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From 1e7e83fe39ebd05507213e10c192e528012dffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 03/21] fix: include the end value of descending 'For' loops

'For i from 5 to 1 by -1' stopped at 3.
---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 48b3590..f896503 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,10 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end value is included, whatever the direction:
+        stop = end.value + (1 if by.value > 0 else -1)
+
+        return [Value(i) for i in range(sta.value, stop, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From aadc9ac92255d507898b31432749e67465e5fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 04/21] fix: do not share issue severities between severity
 contexts

The mapping was a class attribute, so set_severity() on one runner changed all the
others.
---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..e9fce52 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,9 +29,10 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
+        self._context = {}
         self._default_severity = Severity.WARNING
 
     @abstractmethod
-- 
2.43.0


From 36bbcbbf8d56a356ce72903e614585da49fb2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 05/21] fix: allow optional arguments of functions to be
 omitted

GetPluginLoadOrder() with a single argument failed with an index error.
---
 src/wizard/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..7140482 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -143,7 +143,10 @@ def wrap_function(
             raise TypeError(f"{name}: too many arguments.")
 
         for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+            if iarg >= len(vs):
+                # omitted optional arguments get the default value of the method:
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
-- 
2.43.0


From b645025897e3c3ebf729c69e7750231776f86879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:31 +0000
Subject: [PATCH 06/21] fix: pass all the arguments to functions with variable
 arguments

Only the first argument was passed to DataFileExists(), and startswith() and
endswith() never received their prefixes.
---
 src/wizard/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 7140482..f67cb99 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,7 +142,10 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
+        # With varargs, extra arguments have the type of the last one:
+        extra = args[-1:] * (len(vs) - len(args)) if varargs else ()
+
+        for iarg, arg in enumerate(args + extra):
             if iarg >= len(vs):
                 # omitted optional arguments get the default value of the method:
                 if isinstance(arg, optional):
-- 
2.43.0


From eef3fa86f49893cc9e1e76ef60975fc880b9b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:40 +0000
Subject: [PATCH 07/21] fix: make the start and end arguments of find() and
 rfind() optional

---
 src/wizard/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index f67cb99..9baee23 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -205,7 +205,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if p.default is p.empty else optional(object)
+                for p in sig.parameters.values()
+                if p.kind is not p.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 71564d3c387eae5014bb0afc28b366ed00998738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:47 +0000
Subject: [PATCH 08/21] fix: ignore the case of the name in ResetPluginName

A str does not hash like a Plugin unless it is lowercase, so the rename was not
found.
---
 src/wizard/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..008d674 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,8 +288,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
-            del state._renames[Plugin(name)]
+        plugin = Plugin(name)
+        if plugin in state._renames:
+            del state._renames[plugin]
 
     def visitSelectAll(
         self, context: WizardKeywordContext[WizardRunnerState], state: WizardRunnerState
-- 
2.43.0


From d1629fb7f6a8bdf2c0b626792d826e01217847c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:58 +0000
Subject: [PATCH 09/21] fix: do not select a sub-package or a plugin more than
 once

Duplicates were reported in the result, and deselecting only removed one of them
so the name remained selected.
---
 src/wizard/runner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 008d674..bf909fa 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -310,7 +310,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        # (use a dictionary to remove duplicates)
+        state._plugins = list(
+            dict.fromkeys(pg for sp in state._subpackages for pg in sp.plugins())
+        )
 
     def visitSelectPlugin(
         self,
@@ -333,7 +336,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        if self._plugins[ipg] not in state._plugins:
+            state._plugins.append(self._plugins[ipg])
 
     def visitSelectSubPackage(
         self,
@@ -359,8 +363,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From d38077bec92d6ea56bb53a7cba22725d4df1df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:10 +0000
Subject: [PATCH 10/21] fix: allow the optional versions of RequireVersions to
 be omitted

The padding of the missing arguments was computed but not returned, and the
statement was rejected before.
---
 src/wizard/contexts/keywords.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..309aac5 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,8 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        # optional arguments are the ones that can be None (object means any value)
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,21 +59,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-- 
2.43.0


From 43aea17a5af020fae1022bc583185f3488639367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:17 +0000
Subject: [PATCH 11/21] fix: keep the effects of the arguments of keywords,
 exactly once

The arguments were evaluated on the state of the keyword context itself: the effect
of an argument such as 'x++' was lost for the rest of the script but changed the
context, so executing it again (rewind) gave another result. RequireVersions also
evaluated its arguments twice.
---
 src/wizard/contexts/keywords.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 309aac5..093c933 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, types: Sequence[type], state: ContextState) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -69,7 +69,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -169,7 +169,9 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        # weird stuff to please type checkers
+        gv, sew, gew, wbv = super()._get_args(self._argtypes, self.state)
+        self._args = (gv, sew or None, gew or None, wbv or None)
 
     # these property are useful to use the interpreter
     @property
@@ -189,11 +191,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
-        # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
-        return (gv, sew or None, gew or None, wbv or None)
+        # already evaluated, do not evaluate the arguments a second time
+        return self._args
 
     def _visit(
         self,
-- 
2.43.0


From b42c14699c4768f13b684cf26a2167e8aa76c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:25 +0000
Subject: [PATCH 12/21] fix: keep the effects of the argument of Exec()

---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index f896503..b8ce395 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -434,7 +434,10 @@ class WizardExecContext(
             we._ctx = self.context  # type: ignore
             raise we
 
-        return WizardTopLevelContext(self._factory, context, self.parent, state)
+        # The effects of the argument are kept in the enclosing body:
+        return WizardTopLevelContext(
+            self._factory, context, self._factory.copy_parent(self, state), state
+        )
 
 
 class WizardIfContext(
-- 
2.43.0


From 7ce69dfe637981030e46d2a9ad6834053267728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:35 +0000
Subject: [PATCH 13/21] fix: keep the effects of the description and options of
 Select statements

---
 src/wizard/contexts/contexts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b8ce395..f746b8f 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -749,9 +749,10 @@ class WizardSelectContext(
     def exec_(
         self,
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
-        # This completely delegates to the other context:
+        # This completely delegates to the other context (with the effects of the
+        # description and options):
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From e0057addda69d18a2099689b1ed6e7dfcf8eacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 14/21] fix: resume the script when cancel() or complete()
 return False

Both are documented to continue the execution in that case, but the termination
context was executed, which raises NotImplementedError.
---
 src/wizard/scriptrunner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..9b1e19a 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -184,6 +184,13 @@ class WizardScriptRunner(
                         if self.complete():
                             return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
 
+                    # Not stopped: there is nothing left at the end of the script,
+                    # otherwise resume after the 'Cancel' or 'Return' instruction:
+                    if ctx.is_complete():
+                        return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+                    ctx = self._factory.copy_parent(ctx.parent)
+                    continue
+
                 ctx = ctx.exec()
 
             except WizardScriptRunner.RewindFlow as rfex:
-- 
2.43.0


From b41878aad0092495d800ade66a5a03e7288b58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:09 +0000
Subject: [PATCH 15/21] fix: handle rewind() and abort() called from error() or
 cancel()

They raised out of run() when called from error(), or rewind() from cancel() after an
abort(), because these were called from an exception handler of the same try.
---
 src/wizard/scriptrunner.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 9b1e19a..2707224 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -161,10 +161,17 @@ class WizardScriptRunner(
             self.make_top_level_context(script)
         )
 
+        # Set if abort() is called from error():
+        aborted = False
+
         while True:
             self._ctx = ctx
 
             try:
+                if aborted:
+                    aborted = False
+                    self.abort()
+
                 if isinstance(ctx, WizardSelectOneContext):
                     ctx = ctx.select(
                         self.selectOne(ctx.description, ctx.options, ctx.default)
@@ -197,11 +204,21 @@ class WizardScriptRunner(
                 ctx = rfex.context
 
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                # cancel() can itself call rewind():
+                try:
+                    if self.cancel():
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
 
             except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                # error() can itself call rewind() or abort():
+                try:
+                    self.error(ex)
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
+                except WizardScriptRunner.CancelFlow:
+                    aborted = True
 
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From 56201efead9fb31d0289faa992a95668ef700e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:19 +0000
Subject: [PATCH 16/21] fix: keep non-ASCII characters of string literals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unicode_escape codec reads the UTF-8 encoding of the text as Latin-1, so 'é'
became 'Ã©'. Only decode the escape sequences themselves.
---
 src/wizard/expr.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..f9f4d08 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -23,7 +23,10 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    # Escape sequences, the first group matches the character of a bad one:
+    ESCAPE_SEQUENCE = re.compile(
+        r"\\(?:([^abfnrtuUx0-7\\])|U.{8}|u.{4}|x.{2}|[0-7]{1,3}|.)", re.DOTALL
+    )
 
     _subpackages: SubPackages
     _functions: Mapping[
@@ -358,11 +361,12 @@ class WizardExpressionVisitor:
         # Remove the quotation marks:
         txt = ctx.getText()[1:-1]
 
-        # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
-
-        # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        # Remove the backslash of bad escape sequences and replace other escape
+        # sequences as Python does (but only these, decoding the whole string would
+        # break characters that are not ASCII):
+        txt = self.ESCAPE_SEQUENCE.sub(
+            lambda m: m[1] or codecs.decode(m[0], "unicode_escape"), txt
+        )
 
         return Value(txt)
 
-- 
2.43.0


From 7afee103fb4518128f9a30abb0f583dadd3c2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 17/21] fix: do not expose the methods visiting the grammar as
 script functions

Calling Value(1) or Constant() in a script ran the visitor method with wrong
arguments instead of reporting an undefined name.
---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index f9f4d08..2df4ff2 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -104,7 +104,10 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        # visitXXX() methods are functions, except the ones that visit the grammar:
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From 418e213f911e2f28adfd390615a70f756a20d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 18/21] fix: raise KeyError when deleting a key deleted from a
 stacked mapping

---
 src/wizard/utils/mappings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..d0432e5 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -27,8 +27,10 @@ class StackMutableMapping(MutableMapping[K, V]):
         if item in self._variables:
             del self._variables[item]
 
-        # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        # If item is not in the parent (or was already deleted):
+        elif (
+            item in self._deleted or self._parent is None or item not in self._parent
+        ):
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From 30c92c2fa2b92c302524a933bc3d877cb8c0391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 19/21] fix: accept empty script files

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..69c0677 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # chardet finds no encoding for an empty file:
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From e170e82cdf5851568425d0efeadd3a11b4495c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 20/21] fix: evaluate the operands of 'in' from left to right

---
 src/wizard/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 2df4ff2..e702efb 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -142,9 +142,9 @@ class WizardExpressionVisitor:
     def visitIn(
         self, ctx: wizardParser.InContext, state: WizardInterpreterState
     ) -> Value[bool]:
-        return self.visitExpr(ctx.expr(1), state).contains(
-            self.visitExpr(ctx.expr(0), state), bool(ctx.Colon())
-        )
+        # The operands are evaluated from left to right:
+        item = self.visitExpr(ctx.expr(0), state)
+        return self.visitExpr(ctx.expr(1), state).contains(item, bool(ctx.Colon()))
 
     def doCmp(
         self,
-- 
2.43.0


From 1f28e6640ff3c033fdb08bbe3f805dcfc39f1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 21/21] fix: skip nested blocks when recovering from a syntax
 error

---
 src/wizard/utils/error_strategy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6191455..1854e4c 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -32,6 +32,9 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         wizardParser.WhileStmtContext: wizardLexer.EndWhile,
     }
 
+    # The tokens opening a block (these have no names in the grammar):
+    OpeningTokens = ("If", "For", "SelectOne", "SelectMany", "While")
+
     def recover(self, recognizer: wizardParser, e: RecognitionException) -> Token:
         # Mark the context (and "some" parent contexts):
         recognizer._ctx.exception = e
@@ -42,7 +45,7 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         state = recognizer.state
 
         if controlRecoverSet.intervals:
-            self.consumeUntil(recognizer, controlRecoverSet)  # type: ignore
+            self.consumeUntilControl(recognizer, controlRecoverSet)
 
         # Same state, nothing was done, fallback to parent:
         if recognizer.state == state and recognizer._input.index == index:
@@ -61,6 +64,21 @@ class WizardErrorStrategy(DefaultErrorStrategy):
 
         return recognizer.getTokenStream().LT(1)
 
+    def consumeUntilControl(
+        self, recognizer: wizardParser, recoverSet: IntervalSet
+    ) -> None:
+        # The blocks opened after the broken code are skipped as a whole, otherwise
+        # their own closing tokens would be mistaken for the ones of the broken block:
+        depth = 0
+        token = recognizer.getCurrentToken()
+        while token.type != Token.EOF and (depth > 0 or token.type not in recoverSet):
+            if token.text in self.OpeningTokens:
+                depth += 1
+            elif depth > 0 and token.type in self.BlockContexts.values():
+                depth -= 1
+            recognizer.consume()
+            token = recognizer.getCurrentToken()
+
     def getControlRecoverySet(self, recognizer: wizardParser):
         ctx = recognizer._ctx
         recoverSet = IntervalSet()
-- 
2.43.0


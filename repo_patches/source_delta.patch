From 69fd18ead2b2cab563a17c6325d38cc05551568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:34 +0000
Subject: [PATCH 01/31] fix: optimizer loses the usage page of short usages

Streams coming from a parser have short usages under UsagePage items.
Optimizers took them as usages of page 0.
---
 hrdc/stream/optimizer/__init__.py     |  1 +
 hrdc/stream/optimizer/usage_extend.py | 40 +++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)
 create mode 100644 hrdc/stream/optimizer/usage_extend.py

diff --git a/hrdc/stream/optimizer/__init__.py b/hrdc/stream/optimizer/__init__.py
index 5744b20..597570c 100644
--- a/hrdc/stream/optimizer/__init__.py
+++ b/hrdc/stream/optimizer/__init__.py
@@ -4,5 +4,6 @@ from . import global_merge
 from . import main_merge
 from . import physical_merge
 from . import range_merge
+from . import usage_extend
 from . import usage_page
 
diff --git a/hrdc/stream/optimizer/usage_extend.py b/hrdc/stream/optimizer/usage_extend.py
new file mode 100644
index 0000000..5633cf9
--- /dev/null
+++ b/hrdc/stream/optimizer/usage_extend.py
@@ -0,0 +1,40 @@
+from .base import Optimizer
+
+class UsageExtend(Optimizer):
+    """
+    Make usages independent of the usage page items around them, so
+    that next passes can move and merge them.  UsagePage optimizer
+    splits them again.
+    """
+    precedence = 80
+
+    def __init__(self, stream):
+        self.stream = stream
+        self.page = 0
+        self.stack = []
+
+    def append(self, item):
+        from ..item import Item, GlobalItem, LocalItem
+        from ...usage import Usage
+
+        if item.kind == Item.Global:
+            if item.tag == GlobalItem.UsagePage:
+                self.page = int(item.value)
+                return
+
+            if item.tag == GlobalItem.Push:
+                self.stack.append(self.page)
+
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.page = self.stack.pop()
+
+        elif item.kind == Item.Local \
+                 and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum) \
+                 and int(item.value) >> 16 == 0:
+            usage = Usage.lookup((self.page << 16) | int(item.value))
+            item = Item.itemclass(item.kind, item.tag)(usage)
+
+        self.stream.append(item)
+
+    def close(self):
+        self.stream.close()
-- 
2.43.0


From c5ef1f5c25636c5ad1599e3ac67f51a1c657d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:56 +0000
Subject: [PATCH 02/31] fix: main item merging mixes up local items

Arrays and buffered bytes share their usages among elements, and an item
that does not have exactly one usage, string and designator per element
shifts those of the next one: merging such items changes the descriptor.
---
 hrdc/stream/optimizer/main_merge.py | 43 +++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..fc11e2a 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -15,6 +15,24 @@ class MainMerge(Optimizer):
         GlobalItem.ReportID,
         )
 
+    singles = (
+        LocalItem.Usage,
+        LocalItem.DesignatorIndex,
+        LocalItem.StringIndex,
+        )
+
+    localKind = {
+        LocalItem.Usage: LocalItem.Usage,
+        LocalItem.UsageMinimum: LocalItem.Usage,
+        LocalItem.UsageMaximum: LocalItem.Usage,
+        LocalItem.DesignatorIndex: LocalItem.DesignatorIndex,
+        LocalItem.DesignatorMinimum: LocalItem.DesignatorIndex,
+        LocalItem.DesignatorMaximum: LocalItem.DesignatorIndex,
+        LocalItem.StringIndex: LocalItem.StringIndex,
+        LocalItem.StringMinimum: LocalItem.StringIndex,
+        LocalItem.StringMaximum: LocalItem.StringIndex,
+        }
+
     def __init__(self, stream):
         self.stream = stream
         self.beforeMain = []
@@ -22,6 +40,8 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.locals = []
+        self.localKinds = set()
         
         self.props = {}
         
@@ -29,10 +49,11 @@ class MainMerge(Optimizer):
             self.props[key] = 0
 
     def append(self, item):
-        from ..item import Item, MainItem, GlobalItem
+        from ..item import Item, MainItem, GlobalItem, DataItem, LocalItem
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.locals.append(item)
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -46,16 +67,32 @@ class MainMerge(Optimizer):
                 self.afterCount = item.value
 
         else:
+            locals, self.locals = self.locals, []
+
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            # Only variables take their local items element by element
+            mergeable = item.value & DataItem.Variable \
+                        and not item.value & DataItem.BufferedBytes \
+                        and not [x for x in locals if x.tag == LocalItem.Delimiter]
+            kinds = set(self.localKind[x.tag] for x in locals if x.tag in self.localKind)
+
+            if self.mainItems and (item != self.mainItems[0]
+                                   or not mergeable
+                                   or kinds != self.localKinds):
                 self.flush()
 
-            flush_after = self.afterCount != 1
+            # Next element would not pick its own local items if this
+            # one did not have exactly one of each kind
+            flush_after = self.afterCount != 1 \
+                          or not mergeable \
+                          or len(locals) != len(kinds) \
+                          or [x for x in locals if x.tag not in self.singles]
 
+            self.localKinds = kinds
             self.beforeMain += self.afterMain
             self.beforeCount += self.afterCount
             self.afterMain = []
-- 
2.43.0


From dcee4e3d0d73d0d1b72c85208bcb2c220a28851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 03/31] fix: main item merging looses count of pending items on
 close

Merged items were written one by one, without their report count.
---
 hrdc/stream/optimizer/main_merge.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index fc11e2a..0cd458f 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -118,10 +118,7 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
+        self.flush()
         for i in self.beforeMain:
             self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
         self.stream.close()
-- 
2.43.0


From fa7d14893c096137e605b5477ef1d43f6912117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:29 +0000
Subject: [PATCH 04/31] fix: physical range of a data item leaks to the next
 ones

PhysicalMerge never recorded the range it let through: it dropped
physical bounds while other ones were still in force, and kept the
elided ones after the logical range changed.
---
 hrdc/stream/optimizer/physical_merge.py | 50 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..9d26185 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -15,39 +15,45 @@ class PhysicalMerge(Optimizer):
             GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
             GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
             }
-        self.changed = dict(list(self.current.items()))
-        self.pending = []
+        self.written = dict(list(self.current.items()))
+
+    @staticmethod
+    def physical(values, logical):
+        from ..item import GlobalItem
+
+        low = int(values[GlobalItem.PhysicalMinimum].value)
+        high = int(values[GlobalItem.PhysicalMaximum].value)
+        if low == 0 and high == 0:
+            low = int(logical[GlobalItem.LogicalMinimum].value)
+            high = int(logical[GlobalItem.LogicalMaximum].value)
+        return low, high
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
+        from ..item import Item, MainItem, GlobalItem
 
         if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
+            if item.tag in (MainItem.Input, MainItem.Output, MainItem.Feature) \
+                   and self.physical(self.written, self.current) \
+                   != self.physical(self.current, self.current):
+                for tag in (GlobalItem.PhysicalMinimum,
+                            GlobalItem.PhysicalMaximum):
+                    if self.written[tag] != self.current[tag]:
+                        self.written[tag] = self.current[tag]
+                        self.stream.append(self.current[tag])
             self.stream.append(item)
         else:
-            self.pending.append(item)
-
             if item.kind == Item.Global \
                    and item.tag in (GlobalItem.LogicalMinimum,
                                     GlobalItem.LogicalMaximum,
                                     GlobalItem.PhysicalMinimum,
                                     GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+                self.current[item.tag] = item
+
+            # Physical bounds are only written when a main item needs them
+            if item.kind != Item.Global \
+                   or item.tag not in (GlobalItem.PhysicalMinimum,
+                                       GlobalItem.PhysicalMaximum):
+                self.stream.append(item)
 
     def close(self):
-        for i in self.pending:
-            self.stream.append(i)
         self.stream.close()
-- 
2.43.0


From 9192a717ade1d26f0f095948d9f7420c8450bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:30 +0000
Subject: [PATCH 05/31] fix: range merging moves local items out of delimited
 sets

---
 hrdc/stream/optimizer/range_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..c7861ee 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,7 +45,7 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
-- 
2.43.0


From f1306835eb331c1771136f32fecfedaffab2ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 06/31] fix: usage ranges cannot span two usage pages

---
 hrdc/stream/optimizer/range_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index c7861ee..9e71503 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -52,7 +52,7 @@ class RangeMerge(Optimizer):
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 and int(item.value) & 0xffff:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From ed36644444ce6e7ffa4e80099f9bed3b187be994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:19 +0000
Subject: [PATCH 07/31] fix: optimizers ignore Push and Pop

Global items in force after a Pop are those of the matching Push, not
the last ones seen.
---
 hrdc/stream/optimizer/global_merge.py   |  6 ++++++
 hrdc/stream/optimizer/main_merge.py     | 11 +++++++++++
 hrdc/stream/optimizer/physical_merge.py |  7 +++++++
 hrdc/stream/optimizer/usage_page.py     | 10 ++++++++--
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..36475ea 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -10,6 +10,7 @@ class GlobalMerge(Optimizer):
 
         self.stream = stream
         self.locals = {}
+        self.stack = []
         self.globals = {
             GlobalItem.Unit: Unit(0),
             GlobalItem.UnitExponent: UnitExponent(0),
@@ -32,6 +33,11 @@ class GlobalMerge(Optimizer):
                 self.stream.append(item)
             self.globals[item.tag] = item
 
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
+            elif item.tag == GlobalItem.Pop:
+                self.globals = self.stack.pop() if self.stack else {}
+
         elif item.kind == Item.Local:
             self.stream.append(item)
 
diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 0cd458f..6241aef 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -40,6 +40,7 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.stack = []
         self.locals = []
         self.localKinds = set()
         
@@ -66,6 +67,16 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.stack.append(self.afterCount)
+                self.flush()
+
+            elif item.tag == GlobalItem.Pop:
+                self.props = dict.fromkeys(self.to_watch)
+                if self.stack:
+                    self.afterCount = self.stack.pop()
+                self.flush()
+
         else:
             locals, self.locals = self.locals, []
 
diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 9d26185..559fd0b 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -16,6 +16,7 @@ class PhysicalMerge(Optimizer):
             GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
             }
         self.written = dict(list(self.current.items()))
+        self.stack = []
 
     @staticmethod
     def physical(values, logical):
@@ -49,6 +50,12 @@ class PhysicalMerge(Optimizer):
                                     GlobalItem.PhysicalMaximum):
                 self.current[item.tag] = item
 
+            elif item.kind == Item.Global and item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), dict(self.written)))
+
+            elif item.kind == Item.Global and item.tag == GlobalItem.Pop and self.stack:
+                self.current, self.written = self.stack.pop()
+
             # Physical bounds are only written when a main item needs them
             if item.kind != Item.Global \
                    or item.tag not in (GlobalItem.PhysicalMinimum,
diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..8ae1ad5 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -6,6 +6,7 @@ class UsagePage(Optimizer):
     def __init__(self, stream):
         self.stream = stream
         self.page = None
+        self.stack = []
 
     def append(self, item):
         from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
@@ -24,8 +25,13 @@ class UsagePage(Optimizer):
 
         self.stream.append(item)
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        if item.kind == Item.Global:
+            if item.tag == GlobalItem.UsagePage:
+                self.page = int(item.value)
+            elif item.tag == GlobalItem.Push:
+                self.stack.append(self.page)
+            elif item.tag == GlobalItem.Pop:
+                self.page = self.stack.pop() if self.stack else None
 
     def close(self):
         self.stream.close()
-- 
2.43.0


From eda84e7978a2bfdd5349b9da885306d7cbba50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:42 +0000
Subject: [PATCH 08/31] fix: null designator dropped when other designators
 follow

Decision was taken on the first item that is not local, even if more
local items apply to the same main item.
---
 hrdc/stream/optimizer/designator_uniq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..598a6c5 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,9 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
+        self.pending = []
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +29,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From d794f99c0e498877c8100b170155cc393cbd92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:43 +0000
Subject: [PATCH 09/31] fix: binary format fails on named files

Command line tools open files in text mode.
---
 hrdc/stream/formatter/binary.py | 4 ++--
 hrdc/stream/parser/binary.py    | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..d618b5e 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,8 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        # Text files, including standard output
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..e595fe2 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,8 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        # Text files, including standard input
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From c4313f992b8ed3c0f40c5f6b22aa2fe898878524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:45 +0000
Subject: [PATCH 10/31] fix: alignment ignores the count of previous values

---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 5c66c26883b5ee03deaf98b42b58f8f9dc2d56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:47 +0000
Subject: [PATCH 11/31] fix: usage range accepts any index

Negative and out of bounds indices returned usages that are not part of
the range.
---
 hrdc/usage/usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..3977094 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -78,7 +78,7 @@ class UsageRange:
         return int(self.max) - int(self.min) + 1
 
     def __getitem__(self, no):
-        return Usage.lookup(int(self.min) + no)
+        return Usage.lookup(range(int(self.min), int(self.max) + 1)[no])
 
     def __iter__(self):
         for i in range(int(self.min), int(self.max) + 1):
-- 
2.43.0


From 36a148cc28ce31be278a620192d2215cdcf6bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:01 +0000
Subject: [PATCH 12/31] fix: block comments containing // break C code parsing

---
 hrdc/stream/comparer.py    | 5 +----
 hrdc/stream/parser/code.py | 6 ++----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..d27eddd 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", expected_code, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..3c46742 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", contents, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From 8e26a756b50d19fcc05edb668a1a01754090e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 13/31] fix: decompiled velocity unit has a name that does not
 exist

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..dff0547 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From d814c37a2a173118627f731960c4bace540e687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:21 +0000
Subject: [PATCH 14/31] fix: some usages have a name that is not theirs

Decompiled descriptors refer to usages by name.
---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From dd343b2a1f8612bc481b8fce1e0481c55bd9b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:23 +0000
Subject: [PATCH 15/31] fix: wrong code for
 desktop.SystemDisplayRotationLockButton

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From 167a9d3e7acfa17302a1fb632bcc065980387f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:28 +0000
Subject: [PATCH 16/31] fix: cannot compile a collection that has no usage

Decompiler yields such collections.
---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From 4853eb35699149bc51e3775bc9d0b610895a449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:29 +0000
Subject: [PATCH 17/31] fix: values following a nested report use its report ID

---
 hrdc/descriptor/streamer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 57f7da4..61b4057 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.report_stack = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.report_stack.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -32,6 +34,11 @@ class Streamer(descriptor.Visitor):
         if isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
+        elif isinstance(e, descriptor.Report):
+            self.report_id = self.report_stack.pop()
+            if self.report_id:
+                a(item.ReportID(self.report_id))
+
     def element(self, e):
         a = self.stream.append
         align = 0
-- 
2.43.0


From 2709c7de35a259e8d3aaad9d20f36fa5ef89e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:29 +0000
Subject: [PATCH 18/31] fix: named arrays with a usage are compiled as
 variables

A variable has one usage per element, so that only the first usage of
the array was used. Also stop ignoring flags given with a named array.
---
 hrdc/descriptor/descriptor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..1602f35 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,8 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            # This is an array, whatever the default flags are
+            self.flags = self.flags & ~self.Variable
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
-- 
2.43.0


From 471a316de658455be75ff19c89286dcf9f737bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:56 +0000
Subject: [PATCH 19/31] fix: vendor defined collection kinds are not dumped as
 valid Python

---
 hrdc/descriptor/dumper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..2c421c3 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else int(e.kind)
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
@@ -61,8 +62,7 @@ if __name__ == "__main__":
             us = Usage.lookup(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
-                   and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
-                   and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
+                   and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
                 flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
-- 
2.43.0


From 83b77b9b6a6d845b96562721bda76c679392eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 20/31] fix: decompiler mixes up usages of a field

Usages take the page in force where they appear, and a field may have
any number of usages and usage ranges.
---
 hrdc/descriptor/extractor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..e74c165 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -36,10 +36,12 @@ class Extractor(Stream):
     def usage(self, index = 0):
         if not self.usages:
             return None
-        u = self.usages[min((len(self.usages) - 1, int(index)))]
-        if u >> 16:
+        return self.usages[min((len(self.usages) - 1, int(index)))]
+
+    def fullUsage(self, u):
+        if int(u) >> 16:
             return u
-        return usage.Usage.lookup((self.globals[int(item.GlobalItem.UsagePage)] << 16) | u)
+        return usage.Usage.lookup((int(self.globals[int(item.GlobalItem.UsagePage)]) << 16) | int(u))
 
     def string(self, index = 0):
         if not self.strings:
@@ -70,7 +72,10 @@ class Extractor(Stream):
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-                self.usages.append(i.value)
+                self.usages.append(self.fullUsage(i.value))
+
+            elif i.tag in (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum):
+                self.locals[int(i.tag)] = self.fullUsage(i.value)
 
             elif i.tag == item.LocalItem.DesignatorIndex:
                 self.designators.append(i.value)
@@ -81,17 +86,18 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
             # Expand ranges
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
-                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
+                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)]) + 1):
                         target.append(val)
+                    self.locals[int(min)] = self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From c9bb77a236daf68881866cc28acaaf2490ef3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:00 +0000
Subject: [PATCH 21/31] fix: decompiler ignores Push and Pop

---
 hrdc/descriptor/extractor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index e74c165..37f0474 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalsStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -70,6 +71,12 @@ class Extractor(Stream):
         if i.kind == item.Item.Global:
             self.globals[int(i.tag)] = i.value
 
+            if i.tag == item.GlobalItem.Push:
+                self.globalsStack.append(dict(self.globals))
+
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalsStack.pop()
+
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
                 self.usages.append(self.fullUsage(i.value))
-- 
2.43.0


From 86b6718cf0c2f27f6cb5463f5a84740f20a7fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:38 +0000
Subject: [PATCH 22/31] fix: decompiler drops empty collections

---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 37f0474..cbc44c0 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -131,7 +131,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From 530975526af7670b531681fcdbfe8ad62d16cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:40 +0000
Subject: [PATCH 23/31] fix: decompiler does not tell about unaligned values

Compiling the result moved them.
---
 hrdc/descriptor/extractor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index cbc44c0..6865306 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -11,6 +11,7 @@ class Extractor(Stream):
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
         self.globalsStack = []
+        self.offsets = {}
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -142,6 +143,12 @@ class Extractor(Stream):
 
     def addValue(self, v):
         v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+        # Compiler should not add padding that is not in the stream
+        key = int(v.way), int(self.globalValue(item.GlobalItem.ReportID))
+        offset = self.offsets.get(key, 0)
+        if v.alignment > 1 and offset % v.alignment:
+            v.alignment = 1
+        self.offsets[key] = offset + v.size * v.count
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From 36aca46302b7c76fd6d686d668df101b0ef7ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:00 +0000
Subject: [PATCH 24/31] fix: decompiler mishandles arrays

Fields around an array in a named array collection were moved out of it
or made the decompiler fail, units and flags of arrays were lost, and a
message was written in the middle of the decompiled script.
---
 hrdc/descriptor/extractor.py | 80 ++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 6865306..2245c54 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -15,7 +15,6 @@ class Extractor(Stream):
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
 
     def localsClear(self):
         self.usages = []
@@ -110,10 +109,8 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
-                else:
-                    self.leave(self.currentLevel)
+                self.leave(self.currentLevel)
+                self.namedArrayMerge()
 
                 if len(self.stack) == 0:
                     self.reportIdMerge(self.currentLevel)
@@ -136,6 +133,25 @@ class Extractor(Stream):
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
+    def isNamedArray(self, level):
+        return isinstance(level, Collection) \
+               and level.usage is not None \
+               and (level.kind == Collection.NamedArray
+                    or (level.kind == Collection.Logical
+                        and usage.NAry.test(level.usage)))
+
+    def namedArrayMerge(self):
+        """Turn a collection around a lone array to what it was compiled from"""
+        level = self.currentLevel.members[-1]
+        if self.isNamedArray(level) \
+               and level.kind == Collection.Logical \
+               and len(level) == 1 \
+               and isinstance(level[0], Value) \
+               and level[0].namedArray \
+               and level[0].usage is None:
+            level[0].usage = level.usage
+            self.currentLevel.members[-1] = level[0]
+
     def reportIdMerge(self, level):
         level.__report_ids = set()
         for child in level.members:
@@ -190,21 +206,15 @@ class Extractor(Stream):
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
-              and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
-              and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
-                       and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage)))):
-
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
+        elif self.usages \
+             and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
+                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1) \
+             and (not i.value & item.DataItem.Variable
+                  # Named arrays were once compiled this way
+                  or (i.value == item.DataItem.Variable
+                      and self.globalValue(item.GlobalItem.ReportCount) == 1
+                      and len(self.usages) > 1
+                      and self.isNamedArray(self.currentLevel))):
 
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
@@ -213,37 +223,19 @@ class Extractor(Stream):
                 pass
 
             self.addValue(
-                Value(i.tag, arrayCollection.usage,
-                      self.globalValue(item.GlobalItem.ReportSize),
+                Value(i.tag, usage = None,
+                      size = self.globalValue(item.GlobalItem.ReportSize),
+                      flags = i.value,
                       logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      unit = self.globalValue(item.GlobalItem.Unit),
+                      unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
+                      count = self.globalValue(item.GlobalItem.ReportCount),
                       )
                 )
 
-        # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
-                 len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
-
-            uArray = list(map(self.usage, list(range(len(self.usages)))))
-            try:
-                uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
-                pass
-            for no in range(self.globalValue(item.GlobalItem.ReportCount)):
-                self.addValue(
-                    Value(i.tag, usage = None,
-                          size = self.globalValue(item.GlobalItem.ReportSize),
-                          logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
-                          namedArray = uArray,
-                          designator = self.designator(),
-                          string = self.string(),
-                          )
-                    )
-
         elif i.value & item.DataItem.BufferedBytes:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
-- 
2.43.0


From 91dc8e8c6ae49ee1f8fe71dcdeea92c2757d259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 25/31] fix: negative collection kinds are encoded as a named
 kind

Collection(-1) was looked up from the end of the kinds list, and encoded
as UsageModifier rather than being refused like any negative value of an
unsigned item.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index dff0547..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 6c3a9328174d8fbf6f3396f1f67eadc9a0daf32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:26 +0000
Subject: [PATCH 26/31] fix: usages are named in the wrong page after a Pop

---
 hrdc/stream/parser/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..a1a51b8 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.pageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,11 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        if isinstance(i, item.Push):
+            self.pageStack.append(self.usagePage)
+        elif isinstance(i, item.Pop) and self.pageStack:
+            self.usagePage = self.pageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From fe62f1e31a59f36fec63409811bc7eaeb3d9f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:36 +0000
Subject: [PATCH 27/31] fix: optimized usages lose their page when a Pop
 precedes their main item

Extended usages were split to a usage page and short usages in place.  A Pop
between them and their main item restores another page, in which hosts that
resolve short usages at the main item then read them.  Split them after the Pop.
---
 hrdc/stream/optimizer/usage_page.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 8ae1ad5..a6c2ed0 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -7,8 +7,28 @@ class UsagePage(Optimizer):
         self.stream = stream
         self.page = None
         self.stack = []
+        self.pending = []
 
     def append(self, item):
+        from ..item import Item
+
+        self.pending.append(item)
+        if item.kind == Item.Main:
+            self.flush()
+
+    def flush(self):
+        from ..item import Item, Pop
+
+        pending, self.pending = self.pending, []
+        if [x for x in pending if isinstance(x, Pop)]:
+            # Page of split usages must still be in force at the main item
+            order = [int(Item.Global), int(Item.Local), int(Item.Main)]
+            pending.sort(key = lambda x: order.index(int(x.kind)))
+
+        for i in pending:
+            self.write(i)
+
+    def write(self, item):
         from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
         from ...util import NamedConstant
         from ...usage import Usage
@@ -34,4 +54,5 @@ class UsagePage(Optimizer):
                 self.page = self.stack.pop() if self.stack else None
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From e37a9dc9001c3f48bcb23bdd30a88b4919105277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:52 +0000
Subject: [PATCH 28/31] fix: usages beyond 32 bits are split to an invalid
 usage page

Unoptimized compilation refuses them, optimized one turned them to a usage page
of more than 16 bits.
---
 hrdc/stream/optimizer/usage_page.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index a6c2ed0..069fd45 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -35,6 +35,9 @@ class UsagePage(Optimizer):
 
         if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
 
+            if int(item.value) >> 32:
+                raise ValueError("Usage does not fit in 32 bits: %s" % item.value)
+
             sp, su = Usage.lookup(item.value).split()
 
             if self.page is None or self.page != int(sp):
-- 
2.43.0


From 3af76fc21649d360fbeaf371bacd5eaa35f17d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:51 +0000
Subject: [PATCH 29/31] fix: command-line tools exit successfully when a named
 output file cannot be written

Output was only flushed when the interpreter finalized the file, where
errors are ignored.
---
 hrdc/converter.py            | 3 +++
 hrdc/descriptor/compiler.py  | 3 +++
 hrdc/descriptor/extractor.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/hrdc/converter.py b/hrdc/converter.py
index 758f37b..0ca2f61 100644
--- a/hrdc/converter.py
+++ b/hrdc/converter.py
@@ -35,5 +35,8 @@ def _main():
     p = _parser(args.input, stream)
     p.read()
 
+    # Do not exit successfully if output cannot be written
+    args.output.flush()
+
 if __name__ == '__main__':
     _main()
diff --git a/hrdc/descriptor/compiler.py b/hrdc/descriptor/compiler.py
index 4713f76..79f4d66 100644
--- a/hrdc/descriptor/compiler.py
+++ b/hrdc/descriptor/compiler.py
@@ -32,3 +32,6 @@ def compile_main(desc):
     visitor = streamer.Streamer(output)
     desc.accept(visitor)
     output.close()
+
+    # Do not exit successfully if output cannot be written
+    args.output.flush()
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 2245c54..99f41c2 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -303,6 +303,9 @@ def main():
     from .dumper import Dumper
     extractor.root.accept(Dumper(args.output))
 
+    # Do not exit successfully if output cannot be written
+    args.output.flush()
+
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 4404b6060b1cfbd5e7fe57329849d9c62c2f64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 30/31] fix: fractions are compiled to the integer below them

---
 hrdc/stream/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index fc2da2b..cf70c33 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -58,6 +58,9 @@ class Item(metaclass = _ItemMeta):
 
     def __init__(self, value):
         self.value = value or 0
+        if int(self.value) != self.value:
+            raise ValueError("Not an integer for %s: %s"
+                             % (self.__class__.__name__, self.value))
         assert self.signed or int(self.value) >= 0, \
                ValueError("Unexpected value for %s: %d"
                           % (self.__class__.__name__, self.value))
-- 
2.43.0


From 19f21c86b5041f3b9d8b869029477c1701c473dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:53 +0000
Subject: [PATCH 31/31] fix: report types given by code are dumped as an
 attribute no class has

Dumper wrote Value.8 for a value, padding or alignment whose report type is
given by its code, as the compiler accepts; the script did not parse.
---
 hrdc/descriptor/dumper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 2c421c3..6df3ef7 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -51,16 +51,20 @@ if __name__ == "__main__":
     compile_main(descriptor)
 """)
 
+    @staticmethod
+    def way(way):
+        return "Value.%s" % way if isinstance(way, NamedConstant) else int(way)
+
     def element(self, e):
         if isinstance(e, descriptor.Align):
-            self.write(self.indent() + "Align(Value.%s, %d)," % (e.way, e.boundary)+"\n")
+            self.write(self.indent() + "Align(%s, %d)," % (self.way(e.way), e.boundary)+"\n")
 
         elif isinstance(e, descriptor.Padding):
-            self.write(self.indent() + "Padding(Value.%s, %d)," % (e.way, e.size)+"\n")
+            self.write(self.indent() + "Padding(%s, %d)," % (self.way(e.way), e.size)+"\n")
 
         elif isinstance(e, descriptor.Value):
             us = Usage.lookup(e.usage) if e.usage else None
-            self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
+            self.write(self.indent() + "Value(%s, %s, %d" % (self.way(e.way), us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
                    and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
-- 
2.43.0


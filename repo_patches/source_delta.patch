From 2a0420700087aeca3f6741affb62c38126d9458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 01/26] fix: call the run predicate after a shortcut skip

LongestPrefix() and friends missed the position reached by fast-forwarding.
---
 pire/scanners/multi.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..189913a 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,7 +984,13 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
-			head = skipEnd;
+			if (skipEnd != head) {
+				head = skipEnd;
+				if (pred(scanner, state, (const char*)head) == Stop) {
+					st = state;
+					return Stop;
+				}
+			}
 			noShortcut = true;
 		}
 		
-- 
2.43.0


From 127f966dc9898295a2d08a7e903ce9aa20d73fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 02/26] fix: reject truncated images in Mmap()

AlignPtr() compared and consumed bytes as if they were words, AdvancePtr() let
the remaining size wrap around and the emptiness flag was read unchecked.
---
 pire/align.h           | 4 ++--
 pire/scanners/common.h | 2 ++
 pire/scanners/multi.h  | 7 +++----
 pire/scanners/simple.h | 7 +++----
 pire/scanners/slow.h   | 7 +++----
 5 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..459d91c 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,9 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				if ((size_t) next - (size_t) p > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= (size_t) next - (size_t) p;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/common.h b/pire/scanners/common.h
index f01658d..148983a 100644
--- a/pire/scanners/common.h
+++ b/pire/scanners/common.h
@@ -80,6 +80,8 @@ namespace Pire {
 	namespace Impl {
 		inline const void* AdvancePtr(const size_t*& ptr, size_t& size, size_t delta)
 		{
+			if (size < delta)
+				throw Error("EOF reached while mapping Pire scanner");
 			ptr = (const size_t*) ((const char*) ptr + delta);
 			size -= delta;
 			return (const void*) ptr;
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 189913a..46edb17 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,11 +260,10 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..802053e 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,11 +133,10 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..9044c25 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,11 +181,10 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			s.m_vecptr = 0;
-- 
2.43.0


From fffda6964059dffce012bb7f69fd674eb5ab4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 03/26] fix: replace the scanner when mapping an empty image

SimpleScanner and SlowScanner kept their old contents.
---
 pire/scanners/simple.h | 5 ++---
 pire/scanners/slow.h   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 802053e..1a558a9 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -143,10 +143,9 @@ public:
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
+			Impl::AdvancePtr(p, size, s.BufSize());
 		}
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 9044c25..cd0cb55 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -194,8 +194,8 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		Swap(s);
 		return (const void*) p;
 	}
 
-- 
2.43.0


From 18124093275787ffc2806ad39c1c1d0dd1144eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 04/26] fix: keep SlowScanner::need_actions across Mmap() and
 Load()

A SlowCapturingScanner forgot that its images carry actions after the first
Mmap(), or after loading an empty image.
---
 pire/scanner_io.cpp  | 1 +
 pire/scanners/slow.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..c94d76d 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -166,6 +166,7 @@ void SlowScanner::Load(yistream* s)
 			Impl::AlignLoad(s, actSize);
 		}
 	}
+	sc.need_actions = need_actions;
 	Swap(sc);
 }
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index cd0cb55..a05528e 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -195,6 +195,7 @@ public:
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 		}
+		s.need_actions = need_actions;
 		Swap(s);
 		return (const void*) p;
 	}
-- 
2.43.0


From 12aa228bda133c733e35c5c18b667badc89e1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 05/26] fix: copying an empty SlowScanner

The copy was marked as mmap()-ed while having no jump tables, and crashed.
---
 pire/scanners/slow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index a05528e..6c5929e 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -235,7 +235,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
-- 
2.43.0


From a1c1fd940fefa5993ee81b89e23196702130145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 06/26] fix: throw from Load() on a truncated stream

Scanners were silently filled with whatever was in memory.
---
 pire/stub/saveload.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..db7f435 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -150,6 +150,8 @@ namespace Pire {
 	void LoadPodType(yistream* s, T& t)
 	{
 		s->read((char*) &t, sizeof(t));
+		if (!*s)
+			throw Error("EOF reached while loading");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -167,6 +169,8 @@ namespace Pire {
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
 		s->read((char*) t, len * sizeof(*t));
+		if (!*s)
+			throw Error("EOF reached while loading");
 	}
 };
 
-- 
2.43.0


From a98ecf46a8a43a308f6af4db0446c214df106e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 07/26] fix: MakeSuffix() and RemoveDeadEnds() leave the FSM
 undetermined

Compiling a determined FSM after either of them threw an error or produced a
scanner with missing transitions.
---
 pire/fsm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..1d1e230 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -596,6 +596,7 @@ void Fsm::MakeSuffix()
 		if (i != initial)
 			Connect(initial, i);
 	ClearHints();
+	determined = false;
 }
 	
 Fsm& Fsm::Reverse()
@@ -706,6 +707,7 @@ void Fsm::RemoveDeadEnds()
 				k.second.erase(i);
 	}
 	ClearHints();
+	determined = false;
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
 }
-- 
2.43.0


From 4c61552a37046fcb41f76c38d13df26aadfdb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 08/26] fix: swap the sparseness flag in Fsm::Swap()

Fsms built to replace another one now carry its flag themselves.
---
 pire/fsm.cpp            | 3 +++
 pire/half_final_fsm.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 1d1e230..3a38db8 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -260,6 +260,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
 	DoSwap(isAlternative, fsm.isAlternative);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 }
 
 void Fsm::SetFinal(size_t state, bool final)
@@ -604,6 +605,7 @@ Fsm& Fsm::Reverse()
 	Fsm out;
 	out.Resize(Size() + 1);
 	out.letters = Letters();
+	out.m_sparsed = m_sparsed;
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -921,6 +923,7 @@ public:
 		mNewFsm.initial = 0;
 		mNewFsm.determined = true;
 		mNewFsm.letters = Letters();
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		mNewFsm.m_final.clear();
 		for (size_t ns = 0; ns < states.size(); ++ns) {
 			PIRE_IFDEBUG(Cdbg << "State " << ns << " = [" << Join(states[ns].begin(), states[ns].end(), ", ") << "]" << Endl);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..692c2ee 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -274,6 +274,7 @@ namespace Pire {
 				mNewFsm.SetInitial(0);
 				mNewFsm.SetIsDetermined(true);
 				mNewFsm.letters = Letters();
+				mNewFsm.m_sparsed = mFsm.m_sparsed;
 				mNewFsm.ClearFinal();
 				for (size_t i = 0; i < newStates.size(); i++) {
 					newStates[i].CopyData(mNewFsm, i);
-- 
2.43.0


From 6042ffb921dc2c3a3215fc3882df189628cbd242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 09/26] fix: NoGlueLimitCountingScanner::Load() replaces the
 whole scanner

It modified the scanner before the stream was known to be complete, and kept
stale actions or the stale compatibility mode of the previous contents.
---
 pire/extra/count.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..4d8391e 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,25 +1018,24 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
-- 
2.43.0


From bda71facab34480a41d477a6ee83d6f37e405f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 10/26] fix: reject truncated actions in
 NoGlueLimitCountingScanner::Mmap()

---
 pire/extra/count.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 4d8391e..8d00b0c 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1042,8 +1042,11 @@ const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	NoGlueLimitCountingScanner scanner;
 	ui32 type;
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
+	size -= reinterpret_cast<size_t>(p) - reinterpret_cast<size_t>(ptr);
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		if (size < sizeof(ActionIndex))
+			throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
-- 
2.43.0


From 357b6f963562da9da5b64592f9eddfa7a4c9a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 11/26] fix: saving a memory-mapped scanner

Scanner, SimpleScanner and SlowScanner wrote their (absent) private buffers.
---
 pire/scanner_io.cpp   | 12 +++++++++---
 pire/scanners/multi.h |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index c94d76d..eace0cd 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -43,8 +43,7 @@ void SimpleScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 	}
 }
 
@@ -77,9 +76,16 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
+		if (IsMmaped()) {
+			const size_t count = m.statesCount * m.lettersCount;
+			Impl::AlignedSaveArray(s, m_jumpPos, count + 1);
+			Impl::AlignedSaveArray(s, m_jumps, m_jumpPos[count]);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, m_jumpPos[count]);
+			return;
+		}
 
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 46edb17..83eb4d8 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -568,7 +568,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From 14036098d6c9672121327474c7cf12be76e7ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 12/26] fix: reject overflowing and inverted repetition counts

x{3,2} looped over a wrapped-around count.
---
 pire/re_lexer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..cbb30f1 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -22,6 +22,7 @@
 
 
 #include <ctype.h>
+#include <limits>
 #include "stub/utf8.h"
 #include "stub/singleton.h"
 #include <stdexcept>
@@ -298,8 +299,11 @@ namespace {
 			if (!is_digit(ch))
 				Error("Wrong repetition count");
 
-			for (; is_digit(ch); ch = GetChar())
+			for (; is_digit(ch); ch = GetChar()) {
+				if (lower > (std::numeric_limits<int>::max() - 9) / 10)
+					Error("Wrong repetition count");
 				lower = lower * 10 + (ch - '0');
+			}
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -310,10 +314,13 @@ namespace {
 				return Term::Repetition(lower, Inf);
 			else if (!is_digit(ch))
 				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar())
+			for (; is_digit(ch); ch = GetChar()) {
+				if (upper > (std::numeric_limits<int>::max() - 9) / 10)
+					Error("Wrong repetition count");
 				upper = upper * 10 + (ch - '0');
+			}
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
-- 
2.43.0


From edad12e8fc000d1f374d7078ee36a043c95f7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 13/26] fix: thread-safe Singleton()

Fsm::Destinations() and the encodings construct their defaults through it.
---
 pire/stub/singleton.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pire/stub/singleton.h b/pire/stub/singleton.h
index 0079cac..21b8a20 100644
--- a/pire/stub/singleton.h
+++ b/pire/stub/singleton.h
@@ -26,13 +26,10 @@
 
 namespace Pire {
 	
-	// FIXME: not thread safe.
 	template<class T>
 	T* Singleton()
 	{
-		static T* p = 0;
-		if (!p)
-			p = new T;
+		static T* p = new T;
 		return p;
 	}
 	template<class T>
-- 
2.43.0


From 2c9195d18307c34993fe95621743f484171b4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 14/26] fix: bound Scanner::Glue() size by the states lookup
 table capacity

A larger maxSize ran over the end of the table.
---
 pire/scanners/multi.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 83eb4d8..881c62a 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -1103,8 +1103,12 @@ Impl::Scanner<Relocation, Shortcutting> Impl::Scanner<Relocation, Shortcutting>:
 		return lhs;
 	
 	static const size_t DefMaxSize = 80000;
+	// The states lookup table always needs a free slot to terminate a search
+	static const size_t MaxMaxSize = Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> >::InvStates::MaxSize - 4;
 	Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> > task(lhs, rhs);
-	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
+	if (!maxSize)
+		maxSize = DefMaxSize;
+	return Impl::Determine(task, maxSize < MaxMaxSize ? maxSize : MaxMaxSize);
 }
 
 
-- 
2.43.0


From e1153cad2275152ebb4508a5266efcc6989fac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 15/26] fix: forget the previous error when a lexer parses
 again

---
 pire/re_lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index cbb30f1..14d905e 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -385,6 +385,7 @@ void Lexer::InstallDefaultFeatures()
 
 Fsm Lexer::Parse()
 {
+	m_errmsg.clear();
 	if (!Impl::yre_parse(*this))
 		return m_retval.As<Fsm>();
 	else {
-- 
2.43.0


From d4927168df867f310b0d22b41a161bf83d73932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 16/26] fix: ShortestSuffix() lost an already found suffix on
 the begin mark

It also stepped the scanner without taking its actions.
---
 pire/run.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..645740d 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -353,10 +353,10 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 	PIRE_IFDEBUG(Cdbg << "Initial state " << StDump(scanner, state) << Endl);
 
 	for (; rbegin != rend && !scanner.Final(state) && !scanner.Dead(state); --rbegin) {
-		scanner.Next(state, (unsigned char)*rbegin);
+		Step(scanner, state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From e758841a8926659d9c947178783b785d1b6c2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 17/26] fix: HalfFinalFsm::Compile() returns the scanner it
 builds

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..2e14ed8 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -43,6 +43,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From 27da42bfb8a5ad896c8eb16eca30545259c7174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 18/26] fix: saving a NoGlueLimitCountingScanner loaded from an
 AdvancedCountingScanner image keeps its format

---
 pire/extra/count.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 8d00b0c..c210b8d 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1007,7 +1007,11 @@ NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCou
 // Should Save(), Load() and Mmap() functions return stream/pointer in aligned state?
 // Now they don't because tests don't require it.
 void NoGlueLimitCountingScanner::Save(yostream* s) const {
-	Y_ASSERT(!AdvancedScannerCompatibilityMode);
+	if (AdvancedScannerCompatibilityMode) {
+		// Came from an AdvancedCountingScanner image: keep that format, or it would be reloaded with another meaning of actions
+		LoadedScanner::Save(s, ScannerIOTypes::LoadedScanner);
+		return;
+	}
 	LoadedScanner::Save(s, ScannerIOTypes::NoGlueLimitCountingScanner);
 	if (Actions) {
 		SavePodArray(s, Actions, *Actions);
-- 
2.43.0


From d7ced7f52c55e9d0ee5fbefea6218d7d583eef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 19/26] fix: extending a determined FSM lost transitions to
 stale letter classes

---
 pire/fsm.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 3a38db8..1b4d07a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -246,6 +246,11 @@ TSet<Char> Fsm::OutgoingLetters(size_t state) const
 size_t Fsm::Resize(size_t newSize)
 {
 	size_t ret = Size();
+	if (m_sparsed) {
+		// Existing letter classes may not fit the states being added
+		Unsparse();
+		letters = LettersTbl(LettersEquality(m_transitions));
+	}
 	m_transitions.resize(newSize);
 	return ret;
 }
@@ -384,17 +389,6 @@ void Fsm::Import(const Fsm& rhs)
 
 	size_t oldsize = Resize(Size() + rhs.Size());
 
-	for (auto&& outer : m_transitions) {
-		for (auto&& letter : letters) {
-			auto targets = outer.find(letter.first);
-			if (targets == outer.end())
-				continue;
-			for (auto&& character : letter.second.second)
-				if (character != letter.first)
-					outer.insert(ymake_pair(character, targets->second));
-		}
-	}
-
 	auto dest = m_transitions.begin() + oldsize;
 	for (auto outer = rhs.m_transitions.begin(), outerEnd = rhs.m_transitions.end(); outer != outerEnd; ++outer, ++dest) {
 		for (auto&& inner : *outer) {
@@ -404,6 +398,9 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
+		if (!rhs.m_sparsed)
+			continue;
+
 		for (auto&& letter : rhs.letters) {
 			auto targets = dest->find(letter.first);
 			if (targets == dest->end())
@@ -842,6 +839,7 @@ bool Fsm::LettersEquality::operator()(Char a, Char b) const
 
 void Fsm::Sparse(bool needEpsilons /* = false */)
 {
+	Unsparse();
 	letters = LettersTbl(LettersEquality(m_transitions));
 	for (unsigned letter = 0; letter < MaxChar; ++letter)
 		if (letter != Epsilon || needEpsilons)
@@ -853,6 +851,8 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	if (!m_sparsed)
+		return;
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
-- 
2.43.0


From 45dc5c1ef5fe877cc3acf8aed4abb32fed621248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 20/26] fix: concatenation with an FSM whose initial state is
 final lost the left-hand words

---
 pire/fsm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 1b4d07a..dd33e22 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -483,7 +483,8 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From 40bf30595ac97add5b1350098c9f7864d6b3f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 21/26] fix: concatenation and alternation of an FSM with
 itself

---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index dd33e22..19c57e7 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -467,6 +467,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -497,6 +500,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From c9c965d12bd39a4afdb8588bf3f0901027c86fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 22/26] fix: MakeSuffix let a word begin anew whenever it came
 back to the initial state

The extra transitions from the initial state were taken again each time the
automaton re-entered it, so words that are no suffix of any matched word were
accepted ((ab)*c gave "b"), and states no match passes through were used too.
Start from a state of its own and connect it to live states only.
---
 pire/fsm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 19c57e7..cc68757 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -597,9 +597,13 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// A suffix may only begin where a matched word passes, and only once
+	TSet<size_t> dead = DeadStates();
+	size_t start = Resize(Size() + 1);
+	for (size_t i = 0; i < start; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(start, i);
+	initial = start;
 	ClearHints();
 	determined = false;
 }
-- 
2.43.0


From 96b8097848690955e7b2da85836c15cd2207e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 23/26] fix: gluing a scanner loaded from an
 AdvancedCountingScanner image misread its actions

Such a scanner keeps its actions as bit masks, but GetActions() took them for
the two flags of a single-regexp scanner, so counts were lost or attributed to
the wrong regexp in the glued scanner.
---
 pire/extra/count.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/extra/count.h b/pire/extra/count.h
index 9dd9872..922e3ce 100644
--- a/pire/extra/count.h
+++ b/pire/extra/count.h
@@ -456,6 +456,17 @@ private:
 		if (!a) {
 			return;
 		}
+		if (AdvancedScannerCompatibilityMode) {
+			for (ActionIndex id = 0; id < MAX_RE_COUNT; ++id) {
+				if (a & (static_cast<Action>(1) << (MAX_RE_COUNT + id))) {
+					*output_resets++ = id + id_shift;
+				}
+				if (a & (static_cast<Action>(1) << id)) {
+					*output_increments++ = id + id_shift;
+				}
+			}
+			return;
+		}
 		if (!Actions) {
 			if (a & ResetAction) {
 				*output_resets++ = id_shift;
-- 
2.43.0


From edf7f4a2f24717016f4a44af354b737b1e54de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 24/26] fix: only ASCII digits make a repetition count

A decimal digit of another script was taken for its distance from '0':
a{<ARABIC-INDIC DIGIT THREE>} repeated 1587 times.
---
 pire/re_lexer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 14d905e..09db4df 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -296,10 +296,10 @@ namespace {
 			ch = GetChar();
 			int lower = 0, upper = 0;
 
-			if (!is_digit(ch))
+			if (!IsDecimal(ch))
 				Error("Wrong repetition count");
 
-			for (; is_digit(ch); ch = GetChar()) {
+			for (; IsDecimal(ch); ch = GetChar()) {
 				if (lower > (std::numeric_limits<int>::max() - 9) / 10)
 					Error("Wrong repetition count");
 				lower = lower * 10 + (ch - '0');
@@ -312,9 +312,9 @@ namespace {
 			ch = GetChar();
 			if (ch == '}')
 				return Term::Repetition(lower, Inf);
-			else if (!is_digit(ch))
+			else if (!IsDecimal(ch))
 				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar()) {
+			for (; IsDecimal(ch); ch = GetChar()) {
 				if (upper > (std::numeric_limits<int>::max() - 9) / 10)
 					Error("Wrong repetition count");
 				upper = upper * 10 + (ch - '0');
@@ -324,6 +324,10 @@ namespace {
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		// is_digit() also holds for decimal digits of other scripts
+		static bool IsDecimal(wchar32 c) { return c >= '0' && c <= '9'; }
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From 44a6abe6b2236a5cfd9d0beff752d100916ef307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:04 +0000
Subject: [PATCH 25/26] fix: refuse an escape the lexer cannot represent

Backslash and U+00FF ended the expression silently, backslash and a
character above U+00FF became another character.
---
 pire/re_lexer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 09db4df..a724329 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -56,6 +56,8 @@ wchar32 Lexer::GetChar()
 			Error("Regexp must not end with a backslash");
 		wchar32 ch = m_input.front();
 		m_input.pop_front();
+		if (ch >= (End & ~ControlMask)) // Would be mistaken for End or for another character
+			Error("Wrong escape sequence");
 		return Control | ch;
 	} else {
 		wchar32 ch = m_input.front();
-- 
2.43.0


From 03985cf152b34ed687c51676682e1051b267aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:04 +0000
Subject: [PATCH 26/26] fix: refuse hexadecimal characters above 32 bits

\x{100000000} was read as \x{0}.
---
 pire/read_unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/read_unicode.cpp b/pire/read_unicode.cpp
index f29adae..62924dc 100644
--- a/pire/read_unicode.cpp
+++ b/pire/read_unicode.cpp
@@ -64,7 +64,7 @@ namespace Pire {
 	}
 
 	wchar32 UnicodeReader::HexToDec(const ystring &hexStr) {
-		wchar32 converted;
+		unsigned long converted;
 		try {
 			converted = std::stoul(hexStr, 0, 16);
 		} catch (std::out_of_range &) {
-- 
2.43.0


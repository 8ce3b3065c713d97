From fcf403f0c04ac0bdf13acf7769a3ec675312efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 01/15] fix: keep key events when the first key-on is at sample
 0

---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From 15cd2b4f330773ba0e732172615f53258443e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 02/15] fix: second decay rate (D2R) is a five bit field

---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From a14c21e269def95dbf7d7bde2888d44675a49179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 03/15] fix: do not share chip clocks between open VGM files

---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..84de712 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 7dbe1f8ab47ea3823dbed74712543ef04573bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 04/15] fix: count the wait that is part of the 0x8n commands

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 84de712..7157a9f 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write from the data bank, followed by a wait of n samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From a6b8014f23401936d85088ebcf3df3f4fe8a7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 05/15] fix: data blocks for a second chip swallowed the rest
 of the file

---
 src/vgm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 7157a9f..1e95084 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -120,7 +120,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
         _ = ss
-        return VgmCommand(cmd_id, f.read(ss))
+        # The top bit selects the second chip and is not part of the size
+        return VgmCommand(cmd_id, f.read(ss & 0x7FFFFFFF))
     elif cmd_id == 0x68:
         buffer = f.read(11)
         (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
-- 
2.43.0


From 4c60899d106300b6dc921d2108f735bd78fa390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 06/15] fix: report a data block header cut short as end of
 file

---
 src/vgm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1e95084..d22adde 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -116,6 +116,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return EOSCommand(cmd_id)
     elif cmd_id == 0x67:
         buffer = f.read(6)
+        if len(buffer) != 6:
+            raise EOFError
         # Pad to handle uint on aligned boundaries?
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
@@ -124,6 +126,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss & 0x7FFFFFFF))
     elif cmd_id == 0x68:
         buffer = f.read(11)
+        if len(buffer) != 11:
+            raise EOFError
         (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
         _ = cc
         _ = (ooH * 256) + ooB
-- 
2.43.0


From a24de36e2ab3b59f780b96feb494ce0234470130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 07/15] fix: do not interpret data after the end of the song as
 commands

---
 src/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..2eb2b64 100644
--- a/src/main.py
+++ b/src/main.py
@@ -3,6 +3,7 @@ import argparse
 # Press the green button in the gutter to run the script.
 
 import vgm.core
+from vgm.command import EOSCommand
 from extractors import extract_tracks_to_xrns, extract_instruments
 from tools import smart_open
 from vgm.ym2151 import state, config
@@ -16,6 +17,9 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, EOSCommand):
+            # Whatever follows (such as the GD3 tag) is not part of the song
+            break
 
     return st
 
-- 
2.43.0


From 7915953fc55cd03f61d5d3ddad955f23e72c146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 08/15] fix: main() relied on a global only set when run as a
 script

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index 2eb2b64..2c23f84 100644
--- a/src/main.py
+++ b/src/main.py
@@ -31,7 +31,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0


From f72693537bb4aea51a031ae8d7e07fc5f57ad4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 09/15] fix: tempo was one beat too low for some row lengths

---
 src/extractors.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..63ba2b7 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,9 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    # Integer arithmetic, a float error could lose a whole beat per minute
+    beat_length = ticks_per_note * notes_per_beat
+    song.globals.beats_per_min = 60 * sample_freq // beat_length
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0


From 40f7ea042d4831dc9b3539da58dfd831368a71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 10/15] fix: the last row of the track listing was never
 written

---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 63ba2b7..67131bc 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -111,6 +111,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From febcaaa03e8a2a5543ae1d130ba2a3099ea2fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/15] fix: the track listing labelled each row with the time
 of the next one

---
 src/extractors.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 67131bc..380d232 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -69,6 +69,7 @@ def extract_tracks(s, track_filename, ticks_per_note):
         channel_count = 8
         line_count = 64
         total_row = 0
+        row_sample = 0
         note_row = [""] * channel_count
 
         while len(channel_notes):
@@ -77,28 +78,32 @@ def extract_tracks(s, track_filename, ticks_per_note):
             current_row = current_sample // ticks_per_note
             if current_row != total_row:
                 row = [
-                    str(current_sample),
+                    str(row_sample),
                     str(total_row % line_count),
                     str(total_row // line_count),
                     str(total_row),
-                    "{:.2}".format((current_sample / ticks_per_note) % 1),
+                    "{:.2}".format((row_sample / ticks_per_note) % 1),
                 ] + note_row
                 fo.write(f'{",".join(row)}\n')
 
                 while total_row + 1 < current_row:
                     total_row += 1
+                    row_sample = total_row * ticks_per_note
                     row = [
-                        str(current_sample),
+                        str(row_sample),
                         str(total_row % line_count),
                         str(total_row // line_count),
                         str(total_row),
-                        "{:.2}".format((current_sample / ticks_per_note) % 1),
+                        "{:.2}".format((row_sample / ticks_per_note) % 1),
                     ] + [""] * channel_count
                     fo.write(f'{",".join(row)}\n')
 
                 total_row = current_row
                 note_row = [""] * channel_count
 
+            if not any(note_row):
+                row_sample = current_sample
+
             for ch in range(channel_count):
                 if (
                     ch in channel_notes
@@ -113,11 +118,11 @@ def extract_tracks(s, track_filename, ticks_per_note):
 
         if any(note_row):
             row = [
-                str(current_sample),
+                str(row_sample),
                 str(total_row % line_count),
                 str(total_row // line_count),
                 str(total_row),
-                "{:.2}".format((current_sample / ticks_per_note) % 1),
+                "{:.2}".format((row_sample / ticks_per_note) % 1),
             ] + note_row
             fo.write(f'{",".join(row)}\n')
 
-- 
2.43.0


From 6827c2a4c644ed7ce823eef27874885575e196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 12/15] fix: reading a song from standard input needs the
 binary stream

---
 src/tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..1d59df7 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -4,17 +4,18 @@ import sys
 
 @contextlib.contextmanager
 def smart_open(filename: str, mode: str):
-    if filename and filename != "-":
+    is_file = bool(filename) and filename != "-"
+    if is_file:
         fh = open(filename, mode)
     elif mode.startswith("w"):
-        fh = sys.stdout
+        fh = sys.stdout.buffer if "b" in mode else sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        fh = sys.stdin.buffer if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
     try:
         yield fh
     finally:
-        if fh is not sys.stdout and fh is not sys.stdin:
+        if is_file:
             fh.close()
-- 
2.43.0


From dd6c62ab758495855e39ba1566b05a6053fcf183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 13/15] fix: a song could not be read from a pipe

---
 src/vgm/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index d22adde..041a72d 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -159,6 +159,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
 
 def reader(vgmfile: BinaryIO) -> Optional[Vgm]:
     logging.info(f"opening {vgmfile}")
+    if not vgmfile.seekable():
+        # Such as a pipe on standard input
+        vgmfile = io.BytesIO(vgmfile.read())
     header = vgmfile.read(4)
 
     temp_file: Union[BinaryIO, gzip.GzipFile] = vgmfile
-- 
2.43.0


From 00ec51af00c24e91d32030ea64808b7107bd84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 14/15] fix: the tool failed on a file name that standard
 output cannot encode

---
 src/extractors.py | 8 ++++----
 src/main.py       | 4 ++--
 src/tools.py      | 6 ++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 380d232..f645da5 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -6,12 +6,12 @@ from vgm.ym2151.state import State
 import xrns.parts.song
 import xrns.parts.pattern
 from xrns.writer import writer
-from tools import smart_open
+from tools import smart_open, printable
 from vgm.ym2151 import config
 
 
 def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
-    print(f"Writing xrns {track_filename}...")
+    print(f"Writing xrns {printable(track_filename)}...")
 
     song = xrns.parts.song.Song(tracks=8, instruments=len(s.configs))
 
@@ -50,7 +50,7 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
 
 
 def extract_tracks(s, track_filename, ticks_per_note):
-    print(f"Writing tracks to {track_filename}...")
+    print(f"Writing tracks to {printable(track_filename)}...")
     channel_iters = [iter(s.key_presses(ch)) for ch in range(8)]
     channel_notes: Dict[int, vgm.ym2151.state.Note] = {}
     for idx, it in enumerate(channel_iters):
@@ -128,7 +128,7 @@ def extract_tracks(s, track_filename, ticks_per_note):
 
 
 def extract_instruments(instr_filename, s):
-    print(f"Writing instruments to {instr_filename}...")
+    print(f"Writing instruments to {printable(instr_filename)}...")
     js = json.dumps(s.configs, cls=config.ConfigEncoder, indent="\t")
     with smart_open(instr_filename, "w") as fo:
         fo.write(js)
diff --git a/src/main.py b/src/main.py
index 2c23f84..f9e007a 100644
--- a/src/main.py
+++ b/src/main.py
@@ -5,7 +5,7 @@ import argparse
 import vgm.core
 from vgm.command import EOSCommand
 from extractors import extract_tracks_to_xrns, extract_instruments
-from tools import smart_open
+from tools import smart_open, printable
 from vgm.ym2151 import state, config
 
 
@@ -31,7 +31,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(vgm_filename))
+        print("Opening file: {}".format(printable(vgm_filename)))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
diff --git a/src/tools.py b/src/tools.py
index 1d59df7..6390e38 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -19,3 +19,9 @@ def smart_open(filename: str, mode: str):
     finally:
         if is_file:
             fh.close()
+
+
+def printable(name: str) -> str:
+    """The name as standard output can show it: what it cannot encode is escaped"""
+    encoding = getattr(sys.stdout, "encoding", None) or "utf-8"
+    return str(name).encode(encoding, "backslashreplace").decode(encoding)
-- 
2.43.0


From daa8ce9cc3a79fe8fe153b4380a9793491ffc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:52 +0000
Subject: [PATCH 15/15] fix: write the number of lines of each pattern

A song with other than 64 lines per track lost its pattern lengths when
written, so that Renoise played 64 lines of each pattern.
---
 src/xrns/xrns_serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrns/xrns_serializer.py b/src/xrns/xrns_serializer.py
index 1fe8a77..9cfff80 100644
--- a/src/xrns/xrns_serializer.py
+++ b/src/xrns/xrns_serializer.py
@@ -166,6 +166,7 @@ class XrnsSerializer:
 
     def _render_pattern(self, pattern: Pattern) -> dao.Pattern:
         return dao.Pattern(
+            number_of_lines=pattern.lines_per_track,
             tracks=dao.Pattern.Tracks(
                 pattern_track=[
                     self._render_pattern_track(track) for track in pattern.tracks
-- 
2.43.0


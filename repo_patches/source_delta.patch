From 279db1aa78f262247d1926ce9ddc5a6f267494bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:03 +0000
Subject: [PATCH 01/50] fix: return uncompressed code data unmodified when its
 end only resembles a footer

---
 ndspy/codeCompression.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..7004faf 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,20 +36,21 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        dataLen = len(data) - possibleAmt
+        if dataLen < 8:
             return None
 
-        compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
+        compLenHeaderLen, extraSize = struct.unpack_from('<II', data, dataLen - 8)
         headerLen = compLenHeaderLen >> 24
         compressedLen = compLenHeaderLen & 0xFFFFFF
 
         if headerLen < 8: continue
-        if compressedLen > len(data): continue
-        for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
-            if byte != 0xFF:
-                continue
+        if not (headerLen <= compressedLen <= dataLen): continue
+        if any(byte != 0xFF for byte in data[dataLen - headerLen : dataLen - 8]):
+            continue
+
+        # If extraSize is 0, there's nothing compressed here
+        if extraSize == 0: continue
 
         return possibleAmt
 
@@ -79,11 +80,6 @@ def decompress(data: bytes) -> bytes:
         appendedData = data[-appendedDataAmount:]
         data = data[:-appendedDataAmount]
 
-    # If extraSize (the last value in the header) is 0, the data is not
-    # actually compressed
-    if data[-4:] == b'\0\0\0\0':
-        return data
-
     # Read the header
     compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - 8)
     headerLen = compLenHeaderLen >> 24
-- 
2.43.0


From 7c298f3ecb7ccd4d720bfe92948b379ee5a16b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:41 +0000
Subject: [PATCH 02/50] fix: store code data uncompressed when compressing it
 would not make it smaller

---
 ndspy/codeCompression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 7004faf..e4e17e0 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -252,7 +252,13 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    # Size of the compressed file (with its header), after removing
+    # ignorable data and aligning to 4
+    compressedSize = ((ignorableD + len(compressed) - ignorableC + 3) & ~3) + 8
+
+    if (not compressed
+            or len(data) + 4 < ((len(compressed) + 3) & ~4) + 8
+            or len(data) <= compressedSize):
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 5c517bdc5df76c607ed17cf6bf93f8b3b1cc0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:00 +0000
Subject: [PATCH 03/50] fix: write BMG script start indices where the loader
 reads them in big-endian files

---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..69b708b 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -299,7 +299,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From f474058bb95a9b2e9334505977817e31744e9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:06 +0000
Subject: [PATCH 04/50] fix: report an empty path as not found in filename
 tables instead of raising IndexError

---
 ndspy/fnt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index c6fb53e..98ef6b4 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -120,8 +120,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
@@ -150,8 +151,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
-- 
2.43.0


From 017fde99b5fa10e588cad6c81b3ec10ecfbb6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:12 +0000
Subject: [PATCH 05/50] fix: allow saving main code files that have no code
 settings block

---
 ndspy/code.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..6f53343 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,8 +246,9 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
+            if cso is not None:
+                setInt(cso + 0x14, self.ramAddress + len(data))
+        elif cso is not None:
             setInt(cso + 0x14, 0)
 
         return data
-- 
2.43.0


From 2fa6c26b8b2870c2ec66f50eb1a6f68e70708e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:28 +0000
Subject: [PATCH 06/50] fix: show the channels in the representation of stream
 players

---
 ndspy/soundStreamPlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundStreamPlayer.py b/ndspy/soundStreamPlayer.py
index cef7053..9b7c594 100644
--- a/ndspy/soundStreamPlayer.py
+++ b/ndspy/soundStreamPlayer.py
@@ -40,7 +40,7 @@ class StreamPlayer:
 
 
     def __repr__(self):
-        if self.channels:
+        if not self.channels:
             return f'{type(self).__name__}()'
         else:
             return f'{type(self).__name__}({self.channels!r})'
-- 
2.43.0


From d61a97e3744da1b806c50d57aa0b31319b678c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:57 +0000
Subject: [PATCH 07/50] fix: store the variable number of from-variable
 sequence events in the one byte reserved for it

---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..dac166b 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -586,14 +586,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<BB',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -607,7 +607,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<B', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From ca2ba56fa5fb7ff5d8eba19ad454b3b9f0b644e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:03 +0000
Subject: [PATCH 08/50] fix: pass the unk02 argument on when loading a SWAR
 from a file

---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..651e10a 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02=unk02)
 
 
     def save(self):
-- 
2.43.0


From a02ed2d2716fa3c0b25ad12411011b9fc79abff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:17 +0000
Subject: [PATCH 09/50] fix: allow saving a sound archive with an empty unnamed
 sequence archive slot

---
 ndspy/soundArchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..5e4a1e6 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,7 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None: continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From daf8b94af4677d92e2f2ca0e548dc4154ac315ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:44 +0000
Subject: [PATCH 10/50] fix: allow parsing and saving sequence archives that
 contain empty sequences or no events

---
 ndspy/soundSequenceArchive.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..3ff7da0 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -158,8 +158,11 @@ class SSAR:
                     startOffs2Seq[seq.firstEventOffset] = []
                 startOffs2Seq[seq.firstEventOffset].append(seq)
 
-        self.events, startEvents = soundSequence.readSequenceEvents(
-            eventsData, startOffs)
+        if eventsData or startOffs:
+            self.events, startEvents = soundSequence.readSequenceEvents(
+                eventsData, startOffs)
+        else:
+            self.events, startEvents = [], []
 
         for event, originalOff in zip(startEvents, startOffs):
             for seq in startOffs2Seq[originalOff]:
@@ -167,6 +170,10 @@ class SSAR:
                 seq.parsed = True
                 seq.firstEvent = event
 
+        # Sequences that don't have a first event are now parsed, too
+        for seqName, seq in self.sequences:
+            seq.parsed = True
+
 
     def save(self):
         """
-- 
2.43.0


From db342c2d6d5980594e6430a20a7aadf0f60f431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:59 +0000
Subject: [PATCH 11/50] fix: let tileAt and putTile reach rows beyond the row
 width

---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..517b3e5 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -474,7 +474,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -492,7 +492,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From 9cc1749ae1c700cfc7d7b87624a3d1f9113cb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:05 +0000
Subject: [PATCH 12/50] fix: render tile lists that do not fill the last row

---
 ndspy/graphics2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 517b3e5..0bc2aaa 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -410,7 +410,9 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
     tileIter = iter(tiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
+            tile = next(tileIter, None)
+            if tile is None: break # the last row isn't completely full
+            tilePixels = tile.render(colors, paletteNum)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
@@ -445,7 +447,9 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
     tilemapIter = iter(tilemapTiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
+            tile = next(tilemapIter, None)
+            if tile is None: break # the last row isn't completely full
+            tilePixels = tile.render(imageTiles, colors, tileNumOffset)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
-- 
2.43.0


From e7d1ace7f8cfb714f122de2b92d90be18ebcfe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:25 +0000
Subject: [PATCH 13/50] fix: make texture rendering work with loaded palettes
 and without preparing lookup tables first

---
 ndspy/texture.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 075edd5..aafb68e 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -547,6 +547,12 @@ def renderTextureData(data1, data2, format, width, height, palette=None, isColor
     palette should be a list of colors (or None, if the texture format
     doesn't require one).
     """
+    ndspyColor.prepareLUTs()
+
+    # The decoders need 16-bit color values
+    if palette is not None:
+        palette = [c if isinstance(c, int) else ndspyColor.pack(*c) for c in palette]
+
     if format == TextureFormat.A3I5:
         return _renderA3I5(data1, width, height, palette)
     elif format == TextureFormat.I2:
-- 
2.43.0


From 97e87cb712ec4e9b845ad0ae71908adc0e3bd595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:32 +0000
Subject: [PATCH 14/50] fix: escape single quotes in shortened bytes
 representations

---
 ndspy/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index c3cc59d..e51154a 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -108,7 +108,9 @@ def shortBytesRepr(data, maxLen=None):
     for i, b in enumerate(dataTrunc):
         # We have to be careful to avoid shortening e.g. b'\x01\x31' into b'\11',
         # so we don't shorten if the following byte is an ASCII digit
-        if b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
+        if b == 0x27: # single quote
+            r.append("\\'")
+        elif b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
             r.append(f'\\{b}')
         else:
             r.append(repr(b.to_bytes(1, 'big'))[2:-1])
-- 
2.43.0


From d667d00430f01d25daf3c6d793ccd07cb052b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:18 +0000
Subject: [PATCH 15/50] fix: keep wave and duty cycle references right when
 minifying banks, and allow leaving out the wave archives

---
 ndspy/extras/music.py | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 2216cf9..d44c193 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -101,18 +101,28 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     # (and instruments that were useless in the first place)
     sbnk.inaccessibleInstruments.clear()
 
+    if swars is None: return
+
     # Remove unused entries in SWAR relative to SBNK
+    def usesWave(d):
+        # PSG note definitions have a duty cycle value instead of a wave
+        # ID
+        return d.type not in (soundBank.NoteType.PSG_SQUARE_WAVE,
+                              soundBank.NoteType.PSG_WHITE_NOISE)
+
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            if usesWave(inst.noteDefinition):
+                usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
         elif isinstance(inst, soundBank.RangeInstrument):
             noteNum = inst.firstPitch - 1
             for d in inst.noteDefinitions:
                 noteNum += 1
                 if MINIFY_INSTRUMENTS and (noteNum not in notes):
                     continue
-                usedWaves.add((d.waveArchiveIDID, d.waveID))
+                if usesWave(d):
+                    usedWaves.add((d.waveArchiveIDID, d.waveID))
         elif isinstance(inst, soundBank.RegionalInstrument):
             low = 0
             for reg in inst.regions:
@@ -124,27 +134,49 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                             break
                     else:
                         continue
-                usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                if usesWave(reg.noteDefinition):
+                    usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
+    # Wave IDs are relative to each individual SWAR
+    newWaveIDs = {}
     for swarNum, swar in enumerate(swars):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
+            newWaveIDs[(swarNum2, swavNum)] = len(newWaves)
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
+    # Maps id(definition) to a (definition, was it kept) pair. (This
+    # ensures that definitions that are used more than once are only
+    # updated once)
+    updatedDefinitions = {}
+    def updateDefinition(d):
+        """
+        Update the wave ID in a note definition. Return False if its
+        wave was removed, True otherwise.
+        """
+        if id(d) not in updatedDefinitions:
+            kept = True
+            if usesWave(d):
+                newWaveID = newWaveIDs.get((d.waveArchiveIDID, d.waveID))
+                if newWaveID is None:
+                    kept = False
+                else:
+                    d.waveID = newWaveID
+            updatedDefinitions[id(d)] = (d, kept)
+        return updatedDefinitions[id(d)][1]
+
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = usedWaves.index(
-                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            updateDefinition(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = usedWaves.index((d.waveArchiveIDID, d.waveID))
+                if updateDefinition(d):
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -152,9 +184,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
-                    reg.noteDefinition.waveID = usedWaves.index(
-                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                if updateDefinition(reg.noteDefinition):
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
@@ -656,7 +686,7 @@ class SSEQMusic:
         self.sseq = sseq
         self.sbnk = sbnk
         self.swars = swars
-        if not _common.isIterable(self.swars):
+        if self.swars is not None and not _common.isIterable(self.swars):
             raise TypeError('SWAR list is not iterable (did you'
                 ' accidentally pass a SWAR to the constructor instead'
                 ' of a list of SWARs?)')
-- 
2.43.0


From 28196bb5a8f6951f315b32fc85273a789ef66a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:29 +0000
Subject: [PATCH 16/50] fix: use device capacity 0 for ROMs smaller than 128 KB
 instead of failing to save

---
 ndspy/rom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..068664b 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -458,7 +458,7 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            self.deviceCapacity = max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From a3d3f376bca4d9e4def9a48ebde1636603dbdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:36 +0000
Subject: [PATCH 17/50] fix: keep every file in the order list when loading
 ROMs with empty files

---
 ndspy/rom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 068664b..a67ddd7 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,15 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            ranges = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                # Empty files can have the same offset as the file
+                # following them, so include the end offset too
+                ranges.append((startOffset, endOffset, i))
+            for startOffset, endOffset, i in sorted(ranges):
+                self.sortedFileIds.append(i)
 
 
     @classmethod
-- 
2.43.0


From ff78bab7bcbed8fbbc040df1846686374ed34aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:11 +0000
Subject: [PATCH 18/50] fix: count alignment padding in section lengths so
 later code sections are not shifted

---
 ndspy/code.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 6f53343..97daf4f 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -214,11 +214,16 @@ class MainCodeFile:
 
         sectionTable = bytearray()
 
+        def alignedLen(s: MainCodeFile.Section) -> int:
+            # Sections directly follow each other, so their lengths
+            # have to include the alignment padding
+            return (len(s.data) + 3) & ~3
+
         for s in self.sections:
             if s.implicit: continue
             if len(s.data) == 0: continue
             sectionTable.extend(
-                struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))
+                struct.pack('<3I', s.ramAddress, alignedLen(s), s.bssSize))
 
         for s in self.sections:
             if s.implicit: continue
@@ -239,7 +244,7 @@ class MainCodeFile:
         if cso is not None:
             setInt(cso + 0x00, sectionTableAddr)
             setInt(cso + 0x04, sectionTableEnd)
-            setInt(cso + 0x08, self.ramAddress + len(self.sections[0].data))
+            setInt(cso + 0x08, self.ramAddress + alignedLen(self.sections[0]))
         else:
             # Welp, hopefully we only have one section :P
             pass
-- 
2.43.0


From fbd4cb1350a5e7399feeae544e5a14b776efaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:56 +0000
Subject: [PATCH 19/50] fix: detect the byte order of large BMG files correctly

---
 ndspy/bmg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 69b708b..c621a8f 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,12 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
-        # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        # reading the section count value both ways and seeing which one
+        # seems to make more sense: (the file length value would be
+        # misleading for some large files)
+        sectionCountLE, = struct.unpack_from('<I', data, 12)
+        sectionCountBE, = struct.unpack_from('>I', data, 12)
+        self.endianness = se = '<' if sectionCountLE < sectionCountBE else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From 8de27398d567188e657e6bd339d31a3eaa068a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:24 +0000
Subject: [PATCH 20/50] fix: keep null BMG instructions and labels that have
 others after them

---
 ndspy/bmg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index c621a8f..8ce3505 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -129,17 +129,20 @@ class BMG:
             instructionsTableOffset = offset + 16
             for i in range(instructionsCount):
                 instOff = instructionsTableOffset + i * 8
-                cmd = data[instOff : instOff + 8]
-                if cmd != b'\0\0\0\0\0\0\0\0':
-                    self.instructions.append(cmd)
+                self.instructions.append(data[instOff : instOff + 8])
+            # Null instructions at the end are just padding
+            while self.instructions and not any(self.instructions[-1]):
+                self.instructions.pop()
 
             indicesTableOffset = instructionsTableOffset + instructionsCount * 8
             bmgIDsTableOffset = indicesTableOffset + labelsCount * 2
             for i in range(labelsCount):
                 index, = struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)
                 bmgID, = struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)
-                if bmgID != 0 or index != 0:
-                    self.labels.append((bmgID, index))
+                self.labels.append((bmgID, index))
+            # Null labels at the end are just padding
+            while self.labels and self.labels[-1] == (0, 0):
+                self.labels.pop()
 
         self.scripts = []
         def parseFLI1(offset: int, length: int) -> None:
-- 
2.43.0


From 7d1ea7f3f630faee63c1e142a7da59c27f78d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:19 +0000
Subject: [PATCH 21/50] fix: keep parsing after repeated calls to a subroutine
 that ends with a jump

---
 ndspy/soundSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index dac166b..e43120f 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1319,6 +1319,7 @@ def readSequenceEvents(data, notableOffsets=None):
                         partOfIfStatement = (events[x].type == 0xA2)
 
                     if not partOfIfStatement:
+                        fates[off] = fate
                         return fate
 
                 elif type == 0x95: # Call
-- 
2.43.0


From 47cbd9e9e8aa7e509f5ae859ad5b5f7e2b242a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:10 +0000
Subject: [PATCH 22/50] fix: load texture palettes that share data or have
 equal names correctly

---
 ndspy/texture.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index aafb68e..d44b78d 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -422,7 +422,6 @@ def _readTEX0(data):
     # positions (and metadata), then we sort the data start positions,
     # and then we make the actual Palette objects with the palette data.
     paletteStartOffsets = []
-    palette2StartOffset = {}
 
     paletteTuples = []
     returnVal['palettes'] = []
@@ -432,21 +431,17 @@ def _readTEX0(data):
         thisPalOff <<= 3
         thisPalOff += palDataOff
 
-        pt = (name, unk00, unk02, unkHeader02)
-
         paletteStartOffsets.append(thisPalOff)
-        palette2StartOffset[pt] = thisPalOff
-        paletteTuples.append(pt)
+        paletteTuples.append((name, unk00, unk02, unkHeader02, thisPalOff))
 
+    # (Palettes can share data, so only larger offsets can be the end)
     paletteStartOffsets.append(palDataOff + palDataLen)
-    paletteStartOffsets.sort()
 
-    for pt in paletteTuples:
-        startOff = palette2StartOffset[pt]
-        endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
+    for name, unk00, unk02, unkHeader02, startOff in paletteTuples:
+        endOff = min((o for o in paletteStartOffsets if o > startOff),
+                     default=startOff)
         palData = data[startOff : endOff]
 
-        name, unk00, unk02, unkHeader02 = pt
         pal = Palette(unk00, unk02, unkHeader02, palData)
         returnVal['palettes'].append((name, pal))
 
-- 
2.43.0


From bb358d38fe6320194615c19ca7092d7430fc031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:17 +0000
Subject: [PATCH 23/50] fix: refuse to save texture and palette names longer
 than the format allows

---
 ndspy/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index e51154a..286856e 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -219,7 +219,10 @@ def saveInfoBlock(entries, entryLengths):
         if e[0] is None:
             data.extend(b'\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0')
         else:
-            data.extend(e[0].encode('latin-1').ljust(16, b'\0'))
+            name = e[0].encode('latin-1')
+            if len(name) > 16:
+                raise ValueError(f'Name is too long (maximum is 16 characters): {e[0]!r}')
+            data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
     struct.pack_into('<H', data, 2, len(data))
-- 
2.43.0


From d1b13e0d3c1bf6bbcbefca1ffaa6fdc0dfafb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:59 +0000
Subject: [PATCH 24/50] fix: do not assume that file lengths include padding
 when the last one shows otherwise

---
 ndspy/soundArchive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 5e4a1e6..95dccb8 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -198,7 +198,9 @@ class SDAT:
             self.padAtEnd = False
 
         # Do another quick pass to find if the FAT file lengths include
-        # padding
+        # padding (the final file isn't covered by the check above)
+        if fatCount and fileSize % self.fileAlignment != 0:
+            self.fatLengthsIncludePadding = False
 
         # Read the info block
         (infoMagic, infoSize) = \
-- 
2.43.0


From d0127f0766d62786d7f1290981a05a3f949e40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:57 +0000
Subject: [PATCH 25/50] fix: take the padding at the end of a sound archive
 into account when detecting its file alignment

---
 ndspy/soundArchive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 95dccb8..7a5388d 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -189,6 +189,11 @@ class SDAT:
             file = data[fileOffset : fileOffset + fileSize]
             files.append(file)
 
+        # If there's padding at the end, it tells about the alignment, too
+        if finalFileEnd < len(data):
+            while self.fileAlignment > 0x20 and len(data) % self.fileAlignment:
+                self.fileAlignment //= 2
+
         if self.firstFileAlignment == self.fileAlignment:
             self.firstFileAlignment = None
 
-- 
2.43.0


From d07780c86277e688990f3f329b239e98afc11b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:53 +0000
Subject: [PATCH 26/50] fix: refuse to save regional instruments that the
 format cannot represent

---
 ndspy/soundBank.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndspy/soundBank.py b/ndspy/soundBank.py
index 64376e9..1085b6c 100644
--- a/ndspy/soundBank.py
+++ b/ndspy/soundBank.py
@@ -349,6 +349,12 @@ class RegionalInstrument(Instrument):
         if len(self.regions) > 8:
             raise ValueError("Can't save RegionalInstrument -- too many "
                              f'regions ({len(self.regions)})!')
+        if not self.regions:
+            raise ValueError("Can't save RegionalInstrument -- there must be "
+                             'at least one region!')
+        if any(region.lastPitch == 0 for region in self.regions[1:]):
+            raise ValueError("Can't save RegionalInstrument -- only the first "
+                             'region can have a last pitch of 0!')
 
         data = bytearray(8 + 0xC * len(self.regions))
         for i, region in enumerate(self.regions):
-- 
2.43.0


From a1ed16e14ff8481de32a2528c8606d8d3e9ff9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:59 +0000
Subject: [PATCH 27/50] fix: refuse to save image tiles with too many or too
 few pixels or too large pixel values

---
 ndspy/graphics2D.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 0bc2aaa..2d9180d 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -147,6 +147,14 @@ class ImageTile:
     def save(self):
         _checkImageFormat(self.format)
 
+        if len(self.pixels) != 64:
+            raise ValueError(f'ImageTiles should have 64 pixels'
+                             f' (found: {len(self.pixels)})')
+        maxPixel = 15 if self.format == ImageFormat.I4 else 255
+        if not all(0 <= px <= maxPixel for px in self.pixels):
+            raise ValueError(f'{self.format.name} ImageTile pixels should be'
+                             f' between 0 and {maxPixel}')
+
         if self.format == ImageFormat.I4:
             data = bytearray()
 
-- 
2.43.0


From b3f4903ed67d5e2a82834f8be64424853960dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:05 +0000
Subject: [PATCH 28/50] fix: refuse to save players with channels that the
 format cannot represent

---
 ndspy/soundArchive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 7a5388d..852ba32 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -670,6 +670,10 @@ class SDAT:
 
                 maxSequences, channels, heapSize = sp.save()
 
+                if any(j not in range(16) for j in channels):
+                    raise ValueError(f'Sequence player {i} uses channels that'
+                                     f' are not between 0 and 15: {channels}')
+
                 channelMask = 0
                 for j in range(16):
                     if j in channels:
@@ -717,6 +721,9 @@ class SDAT:
 
                 channels = sp.save()
                 chanCount = len(channels)
+                if chanCount > 16:
+                    raise ValueError(f'Stream player {i} has too many channels'
+                                     f' ({chanCount})')
                 while len(channels) < 16:
                     channels.append(0xFF)
 
-- 
2.43.0


From 27bde4a2117d501ef028fddc438e92641e9d39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:11 +0000
Subject: [PATCH 29/50] fix: refuse to save BMGs with an empty byte order
 setting

---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 8ce3505..12221b7 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -246,7 +246,7 @@ class BMG:
         Generate file data representing this BMG.
         """
         se = self.endianness
-        if se not in '<>':
+        if se not in ('<', '>'):
             raise ValueError(f"BMG.endianness is '{se}', which is"
                              f" neither '<' nor '>'")
         if not isinstance(self.encoding, str) or \
-- 
2.43.0


From 4f75ed3f9e097c32887179b3dc0dfa7cd8f49230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 30/50] fix: refuse overlay sizes that would spill into the
 flags

---
 ndspy/code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/code.py b/ndspy/code.py
index 97daf4f..8402d91 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -473,6 +473,9 @@ def saveOverlayTable(table: dict[int, Overlay]) -> bytes:
         values.append(ov.staticInitStart)  # 0x10
         values.append(ov.staticInitEnd)    # 0x14
         values.append(ov.fileID)           # 0x18
+        if not 0 <= ov.compressedSize <= 0xFFFFFF:
+            raise ValueError(f'Compressed size of overlay {ovId} does not fit'
+                             f' in 24 bits ({ov.compressedSize:#x})')
         values.append(ov.compressedSize | ov.flags << 24) # 0x1C
 
         ovt.extend(struct.pack('<8I', *values))
-- 
2.43.0


From b82e2525e42f24d4da9fd1cc2b023959eee10584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:10 +0000
Subject: [PATCH 31/50] fix: refuse to save instrument IDs that the event
 cannot hold

---
 ndspy/soundSequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index e43120f..a3e99b9 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -412,7 +412,10 @@ class InstrumentSwitchSequenceEvent(SequenceEvent):
             self.bankID << 7 | self.instrumentID)
 
     def save(self, eventsToOffsets=None):
-        value = self.instrumentID & 0x7F | self.bankID << 7
+        if not 0 <= self.instrumentID <= 127:
+            raise ValueError(f'Instrument ID must be between 0 and 127'
+                             f' (found: {self.instrumentID})')
+        value = self.instrumentID | self.bankID << 7
         return super().save() + _writeVariableLengthInt(value)
 
     @classmethod
-- 
2.43.0


From 41c79447d45fd6aa9378ac4ba7f46f1a57a769f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:18 +0000
Subject: [PATCH 32/50] fix: refuse to save tile and palette numbers that do
 not fit in a tilemap entry

---
 ndspy/graphics2D.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 2d9180d..f14bfc2 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -382,7 +382,13 @@ def saveTilemapTiles(tiles):
         format = tiles[0].format
         if not all(t.format == format for t in tiles):
             raise ValueError('saveTilemapTiles(): Inconsistent tilemap tile formats')
-        
+
+        maxTileNum = 0x3FF if format == TilemapFormat.I10H1V1P4 else 0xFF
+        for t in tiles:
+            if not 0 <= t.tileNum <= maxTileNum or not 0 <= t.paletteNum <= 15:
+                raise ValueError(f'saveTilemapTiles(): Tile number ({t.tileNum})'
+                                 f' or palette number ({t.paletteNum}) too large')
+
         if format == TilemapFormat.I10H1V1P4:
             return b''.join(struct.pack('<H', t.value) for t in tiles)
         else:
-- 
2.43.0


From e025605990f26897f85809f6d9baae2d39356494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:27 +0000
Subject: [PATCH 33/50] fix: refuse to save BNBL and BNCL positions that do not
 fit in 12 bits

---
 ndspy/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index 286856e..b3614de 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -261,8 +261,11 @@ def packAlignmentIntoPos(x, y, alignment):
     Given x, y and alignment values, return packed x/y values with the
     alignment information embedded, as in BNCL/BNCD/BNBL.
     """
-    xPack = x & 0xFFF
-    yPack = y & 0xFFF
+    if not 0 <= x <= 0xFFF or not 0 <= y <= 0xFFF:
+        raise ValueError(f'Position ({x}, {y}) does not fit in 12 bits')
+
+    xPack = x
+    yPack = y
 
     if alignment & Alignment.H_CENTER:
         xPack |= 0x1000
-- 
2.43.0


From 8e6f96a1a445336cd28b7f076c0203c1385182e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:32 +0000
Subject: [PATCH 34/50] fix: refuse to save track numbers that the event cannot
 hold

---
 ndspy/soundSequence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index a3e99b9..ba6cde7 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1132,6 +1132,9 @@ class DefineTracksSequenceEvent(SequenceEvent):
         self.trackNumbers = trackNumbers
 
     def save(self, eventsToOffsets=None):
+        if any(i not in range(16) for i in self.trackNumbers):
+            raise ValueError('Track numbers must be between 0 and 15'
+                             f' (found: {self.trackNumbers})')
         tracksBitfield = 0
         for i in range(16):
             if i in self.trackNumbers:
-- 
2.43.0


From bc8adb5d6034b72f1684eb70448184e98582976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:46 +0000
Subject: [PATCH 35/50] fix: do not hang on truncated BMG files

---
 ndspy/bmg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 12221b7..a6feac8 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -187,10 +187,14 @@ class BMG:
 
             nextBytes = DAT1[offset : offset + len(nullChar)]
             while nextBytes != nullChar:
+                if len(nextBytes) < len(nullChar):
+                    raise ValueError('BMG message has no end')
                 if nextBytes == escapeSequenceStart: # escape sequence
                     if currentStringStart and currentStringStart != offset:
                         stringParts.append(DAT1[currentStringStart:offset].decode(self.fullEncoding))
                     escapeLen, escapeType = DAT1[offset + len(escapeSequenceStart) : offset + len(escapeSequenceStart) + 2]
+                    if not escapeLen:
+                        raise ValueError('BMG escape sequence has no length')
                     escapeData = DAT1[offset + len(escapeSequenceStart) + 2 : offset + escapeLen]
                     stringParts.append(Message.Escape(escapeType, escapeData))
                     offset += escapeLen
-- 
2.43.0


From d4a4e6b4a904aaf846575a2c1218fdaacfbfb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:37 +0000
Subject: [PATCH 36/50] fix: end empty and conditionally ending tracks when
 saving SSEQMusic

---
 ndspy/extras/music.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index d44c193..37ba3a4 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -449,6 +449,23 @@ class SSEQMusic:
                     self.events.pop()
 
 
+        def _eventsForSaving(self):
+            """
+            Return a copy of .events that's guaranteed not to run into
+            whatever comes after it.
+            """
+            events = list(self.events)
+            if (not events
+                    or not isinstance(events[-1],
+                                      (soundSequence.EndTrackSequenceEvent,
+                                       soundSequence.JumpSequenceEvent))
+                    or (len(events) > 1
+                        and isinstance(events[-2],
+                                       soundSequence.IfSequenceEvent))):
+                events.append(soundSequence.EndTrackSequenceEvent())
+            return events
+
+
         @property
         def looped(self):
             return any(isinstance(e, soundSequence.JumpSequenceEvent)
@@ -803,12 +820,7 @@ class SSEQMusic:
         if len(self.tracks) == 1 and 0 in self.tracks:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
-            self.sseq.events = list(self.tracks[0].events)
-            if not (isinstance(self.sseq.events[-1],
-                               soundSequence.EndTrackSequenceEvent)
-                    or isinstance(self.sseq.events[-1],
-                                  soundSequence.JumpSequenceEvent)):
-                self.sseq.events.append(soundSequence.EndTrackSequenceEvent())
+            self.sseq.events = self.tracks[0]._eventsForSaving()
 
         else:
             beginning = []
@@ -818,21 +830,13 @@ class SSEQMusic:
             beginning.append(dfse)
 
             for trackNum in sorted(self.tracks):
-                track = self.tracks[trackNum]
-                if not track.events:
-                    # Um.
-                    continue
+                trackEvents = self.tracks[trackNum]._eventsForSaving()
 
                 if trackNum != 0:
                     beginning.append(
                         soundSequence.BeginTrackSequenceEvent(
-                            trackNum, track.events[0]))
-                contents.extend(track.events)
-                if not (isinstance(contents[-1],
-                                   soundSequence.EndTrackSequenceEvent)
-                        or isinstance(contents[-1],
-                                      soundSequence.JumpSequenceEvent)):
-                    contents.append(soundSequence.EndTrackSequenceEvent())
+                            trackNum, trackEvents[0]))
+                contents.extend(trackEvents)
 
             self.sseq.events = beginning + contents
 
-- 
2.43.0


From 7c4acbe1556866c6d7175f450e80891dc664d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:43 +0000
Subject: [PATCH 37/50] fix: remove regional instruments that are never played
 when minifying instead of leaving them without regions

---
 ndspy/extras/music.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 37ba3a4..2c0e483 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -169,7 +169,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             updatedDefinitions[id(d)] = (d, kept)
         return updatedDefinitions[id(d)][1]
 
-    for inst in sbnk.instruments:
+    for i, inst in enumerate(sbnk.instruments):
         if isinstance(inst, soundBank.SingleNoteInstrument):
             updateDefinition(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
@@ -191,6 +191,9 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             inst.regions = filteredRegions
             if inst.regions:
                 inst.regions[-1].lastPitch = 127 # required
+            else:
+                # Selected, but never played
+                sbnk.instruments[i] = None
 
 
 def minifyBySseq(sseq, sbnk, swars=None):
-- 
2.43.0


From 3a1cce28d250fb612fdf572b8fbe47be4bfe7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:05 +0000
Subject: [PATCH 38/50] fix: allow representing jumps, calls and track starts
 that lead back to themselves

---
 ndspy/soundSequence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index ba6cde7..b7057cf 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -19,6 +19,7 @@ Support for SSEQs and their sequence events.
 """
 
 import enum
+import reprlib
 import struct
 
 from . import _common
@@ -453,6 +454,7 @@ class BeginTrackSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<begin track {self.trackNumber} id={id(self.firstEvent)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.trackNumber!r}, {self.firstEvent!r} at {id(self.firstEvent)})'
 
@@ -475,6 +477,7 @@ class JumpSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<jump id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
@@ -498,6 +501,7 @@ class CallSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<call id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
-- 
2.43.0


From 90417168bb3a3b1d96d0dc21fa450a687800e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:25 +0000
Subject: [PATCH 39/50] fix: show all unnamed sequences when printing sequence
 archives

---
 ndspy/soundSequenceArchive.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index 3ff7da0..5c8021b 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -250,11 +250,14 @@ class SSAR:
             names = [str(n) for (n, s) in self.sequences]
             return f'<ssar unparsed [{", ".join(names)}]>'
 
+        # Identify unnamed sequences by their indices
+        labels = {}
+        for i, (seqName, seq) in enumerate(self.sequences):
+            labels[str(i) if seqName is None else seqName] = seq.firstEvent
+
         linesList = ['<ssar']
         linesList.append(soundSequence.printSequenceEventList(
-            self.events,
-            {seqName: seq.firstEvent for (seqName, seq) in self.sequences},
-            ' ' * 4))
+            self.events, labels, ' ' * 4))
         linesList.append('>')
         return '\n'.join(linesList)
 
-- 
2.43.0


From 48d61180f63adaca8067a65ee0f3264861c17a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:33 +0000
Subject: [PATCH 40/50] fix: show that messages are null in their
 representation

---
 ndspy/bmg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index a6feac8..9cc4a79 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -466,7 +466,8 @@ class Message:
         return data
 
     def __repr__(self) -> str:
-        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r})'
+        isNull = f', isNull={self.isNull!r}' if self.isNull else ''
+        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r}{isNull})'
 
     def __str__(self) -> str:
         return ''.join(str(s) for s in self.stringParts)
-- 
2.43.0


From 33e7f0ce8509a8083b38491f6d8b57c99c22dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:08 +0000
Subject: [PATCH 41/50] fix: read subfolders from JSON filename tables in the
 tools

---
 tools/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/_common.py b/tools/_common.py
index 0b4ef6a..6a7d957 100644
--- a/tools/_common.py
+++ b/tools/_common.py
@@ -28,7 +28,7 @@ def convertDictToFilenamesTable(d):
     thisFolder = ndspy.fnt.Folder(firstID = d['first_id'])
     thisFolder.files = d.get('files', [])
     for folderName, folderDict in d.get('folders', []):
-        thisFolder.folders.append(folderName, convertDictToFilenamesTable(folderDict))
+        thisFolder.folders.append((folderName, convertDictToFilenamesTable(folderDict)))
     return thisFolder
 
 
-- 
2.43.0


From 63bbbfb8cbd1a7309bedb212a1d425d760af5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:15 +0000
Subject: [PATCH 42/50] fix: make the filename table tool work with NARC
 archives again

---
 tools/fnttool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/fnttool.py b/tools/fnttool.py
index 2013c5b..4a81c73 100644
--- a/tools/fnttool.py
+++ b/tools/fnttool.py
@@ -74,7 +74,7 @@ def main():
     elif args.input_rom:
         fnt = ndspy.rom.NintendoDSRom(ind).filenames
     elif args.input_narc:
-        fnt, _ = ndspy.narc.load(ind)
+        fnt = ndspy.narc.NARC(ind).filenames
 
     assert fnt is not None
 
@@ -99,8 +99,9 @@ def main():
         rom.filenames = fnt
         outd = rom.save()
     elif args.output_narc:
-        _, files = ndspy.narc.load(existing)
-        outd = ndspy.narc.save(fnt, files)
+        narc = ndspy.narc.NARC(existing)
+        narc.filenames = fnt
+        outd = narc.save()
 
     assert outd is not None
 
-- 
2.43.0


From 2f8e5870d54c154d59c623f6029065b12839a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:21 +0000
Subject: [PATCH 43/50] fix: let the LZ10 tool guess what to do with an empty
 file

---
 tools/lz10tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lz10tool.py b/tools/lz10tool.py
index e082f49..935fa16 100644
--- a/tools/lz10tool.py
+++ b/tools/lz10tool.py
@@ -40,7 +40,7 @@ def main():
         # LZ10-compressed files always start with 0x10.
         # This will turn up a few false positives, but it should be
         # a relatively good heuristic.
-        shouldCompress = ind[0] != 0x10
+        shouldCompress = ind[:1] != b'\x10'
 
     outfile = args.outfile
     if outfile is None:
-- 
2.43.0


From e6438145e73b1306e66016c4fef1dbb188b7170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:45 +0000
Subject: [PATCH 44/50] fix: read the one parameter of the VEC_TEST geometry
 command

---
 ndspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/model.py b/ndspy/model.py
index c749989..233c192 100644
--- a/ndspy/model.py
+++ b/ndspy/model.py
@@ -700,7 +700,7 @@ class GeometryCommand_SetDirectionalVectorForTest(GeometryCommand):
     Also known as VEC_TEST.
     """
     type = 0x72
-    PARAM_COUNT = 3
+    PARAM_COUNT = 1
 
 
 _COMMANDS_BY_ID = {
-- 
2.43.0


From 30cb78d2d0fda4cb1acbc728dbb235fbd2086b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:08 +0000
Subject: [PATCH 45/50] fix: refuse to save empty filenames, which would hide
 all names after them

---
 ndspy/fnt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index 98ef6b4..25339a7 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -348,6 +348,8 @@ def save(root: Folder) -> bytes:
             # Each file entry is preceded by a 1-byte length value.
             # Top bit must be 0 or else it'll be interpreted as a
             # folder.
+            if not file:
+                raise ValueError('Empty filenames are not supported')
             if len(file) > 127:
                 raise ValueError(f'Filename "{file}" is {len(file)}'
                     ' characters long (maximum is 127)!')
-- 
2.43.0


From 385359a707f98dd5ce567512e994dba154f2850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:17 +0000
Subject: [PATCH 46/50] fix: refuse to save sound archive names that contain
 null characters

---
 ndspy/soundArchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 852ba32..196c191 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -380,6 +380,8 @@ class SDAT:
         def addSymbolAndGetOffset(symbol):
             if symbol is None:
                 return -1
+            if '\0' in symbol:
+                raise ValueError(f'Names cannot contain null characters: {symbol!r}')
             offset = len(symbolsStringTable)
             symbolsStringTable.extend(symbol.encode('latin-1') + b'\0')
             return offset
-- 
2.43.0


From e9da315efb808f6fd2c34bb8414ea9dc22a7ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:28 +0000
Subject: [PATCH 47/50] fix: refuse to save texture and palette names that end
 with a null character

---
 ndspy/_common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index b3614de..7a5b490 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -222,6 +222,8 @@ def saveInfoBlock(entries, entryLengths):
             name = e[0].encode('latin-1')
             if len(name) > 16:
                 raise ValueError(f'Name is too long (maximum is 16 characters): {e[0]!r}')
+            if name.endswith(b'\0'):
+                raise ValueError(f'Name ends with a null character: {e[0]!r}')
             data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
-- 
2.43.0


From db1513a1216c3129a6e20518633b3d8f75e06717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:54 +0000
Subject: [PATCH 48/50] fix: write sequence events that are in the list more
 than once at every place

---
 ndspy/soundSequence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index b7057cf..072fd28 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1424,13 +1424,17 @@ def saveSequenceEvents(events, notableEvents=None):
     
     events2Offsets = {}
 
+    # A list, since an event can occur more than once
+    eventOffsets = []
+
     off = 0
     for e in events:
         events2Offsets[e] = off
+        eventOffsets.append((e, off))
         off += e.dataLength
     data = bytearray(off)
 
-    for event, offset in events2Offsets.items():
+    for event, offset in eventOffsets:
         eData = event.save(events2Offsets)
         data[offset : offset + len(eData)] = eData
 
-- 
2.43.0


From 4660f587ad2761c85a912df7d74764e2fc1f61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:43 +0000
Subject: [PATCH 49/50] fix: keep inaccessible SBNK instruments that belong to
 empty slots

---
 ndspy/soundBank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundBank.py b/ndspy/soundBank.py
index 1085b6c..a272590 100644
--- a/ndspy/soundBank.py
+++ b/ndspy/soundBank.py
@@ -756,11 +756,13 @@ class SBNK:
                     for inacc in self.inaccessibleInstruments[i]:
                         addInstrument(inacc)
 
-        # Add any inaccessible instruments with IDs that are too high
+        # Add any inaccessible instruments with IDs that are too high, or
+        # that belong to empty slots
         idSet = set(self.inaccessibleInstruments)
         if None in idSet: idSet.remove(None)
         for inaccID in sorted(idSet):
-            if inaccID < len(self.instruments): continue
+            if (inaccID < len(self.instruments)
+                    and self.instruments[inaccID] is not None): continue
             for inacc in self.inaccessibleInstruments[inaccID]:
                 addInstrument(inacc)
 
-- 
2.43.0


From 32a8155f27674c88aa7bc8e3e598d814fd23f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:35 +0000
Subject: [PATCH 50/50] fix: make color.prepareLUTs() safe to call from several
 threads

---
 ndspy/color.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ndspy/color.py b/ndspy/color.py
index bafad16..85eaa1b 100644
--- a/ndspy/color.py
+++ b/ndspy/color.py
@@ -53,6 +53,7 @@
 import collections
 import enum
 import struct
+import threading
 
 from . import _common
 
@@ -73,6 +74,7 @@ ColorTuple = collections.namedtuple('ColorTuple', 'r g b a')
 
 
 _lutsPrepared = False
+_lutsLock = threading.Lock()
 def prepareLUTs():
     """
     Create and populate the lookup tables, if this hasn't been done yet.
@@ -80,11 +82,22 @@ def prepareLUTs():
     performance impact.
     """
     global _lutsPrepared
-    global LUT_UNPACKED, LUT_UNPACKED_255
-    global LUT_RGBA_255, LUT_ARGB_255, LUT_BGRA_255, LUT_ABGR_255
 
     if _lutsPrepared: return
-    _lutsPrepared = True
+
+    # If another thread is already doing this, wait until it's finished
+    with _lutsLock:
+        if not _lutsPrepared:
+            _populateLUTs()
+            _lutsPrepared = True
+
+
+def _populateLUTs():
+    """
+    Create and populate the lookup tables.
+    """
+    global LUT_UNPACKED, LUT_UNPACKED_255
+    global LUT_RGBA_255, LUT_ARGB_255, LUT_BGRA_255, LUT_ABGR_255
 
     # Avoiding using the already-defined functions here because doing so
     # provides a significant speedup, and this code always runs upon startup
-- 
2.43.0


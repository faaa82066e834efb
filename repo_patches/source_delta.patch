From d349d36e16645012b0276f6bf3970df88187cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 01/82] fix: close MIDI files after reading and writing them

Where files are not closed by reference counting (Jython), the end of an
exported file was still in a buffer when toMidiFile returned.
---
 gsapi/midiio.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..0d99f1e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -19,13 +19,15 @@ if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return write_midifile(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return read_midifile(f)
         reader = FileReader()
         return reader.read(midifile)
 
@@ -37,13 +39,15 @@ else:
 
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return write_midifile(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) is str:
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return read_midifile(f)
         reader = FileReader()
         return reader.read(midifile)
 
-- 
2.43.0


From 9c018203a6efdc7ce50c9d8c7563b52345863d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 02/82] fix: make reading and writing MIDI files work on Python
 3

---
 gsapi/midiio.py | 86 ++++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 0d99f1e..f604917 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -62,8 +62,8 @@ class FileReader(object):
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
-        if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+        if magic != b'MThd':
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -83,8 +83,8 @@ class FileReader(object):
     def parse_track_header(self, midifile):
         # First four bytes are Track header
         magic = midifile.read(4)
-        if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+        if magic != b'MTrk':
+            raise TypeError("Bad track header in MIDI file: %r" % magic)
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -92,7 +92,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(bytearray(midifile.read(trksz)))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -104,23 +104,23 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = next(trackdata)
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
                 midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [next(trackdata) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             data = []
             while True:
-                datum = ord(trackdata.next())
+                datum = next(trackdata)
                 if datum == 0xF7:
                     break
                 data.append(datum)
@@ -135,13 +135,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [next(trackdata) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [next(trackdata) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -158,10 +158,10 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b'MThd' + packdata)
 
     def write_track(self, midifile, track):
-        buf = ''
+        buf = b''
         self.RunningStatus = None
         for event in track:
             buf += self.encode_midi_event(event)
@@ -169,32 +169,32 @@ class FileWriter(object):
         midifile.write(buf)
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return b'MTrk' + pack(">L", trklen)
 
     def encode_midi_event(self, event):
-        ret = ''
+        ret = bytearray()
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
-            ret += chr(event.statusmsg) + chr(event.metacommand)
+            ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
-            ret += str.join('', map(chr, event.data))
+            ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
-            ret += chr(0xF0)
-            ret += str.join('', map(chr, event.data))
-            ret += chr(0xF7)
+            ret.append(0xF0)
+            ret += bytearray(event.data)
+            ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
                             self.RunningStatus.statusmsg != event.statusmsg or \
                             self.RunningStatus.channel != event.channel:
                 self.RunningStatus = event
-                ret += chr(event.statusmsg | event.channel)
-            ret += str.join('', map(chr, event.data))
+                ret.append(event.statusmsg | event.channel)
+            ret += bytearray(event.data)
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
-        return ret
+            raise ValueError("Unknown MIDI Event: " + str(event))
+        return bytes(ret)
 
 
 
@@ -228,7 +228,7 @@ class Pattern(list):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
-                                   xrange(*indices)))
+                                   range(*indices)))
         else:
             return super(Pattern, self).__getitem__(item)
 
@@ -263,7 +263,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          range(*indices)))
         else:
             return super(Track, self).__getitem__(item)
 
@@ -296,23 +296,29 @@ class EventRegistry(object):
                     "Event %s already registered" % event.name
                 cls.MetaEvents[event.metacommand] = event
         else:
-            raise(ValueError, "Unknown bases class in event type: " + event.name)
+            raise ValueError("Unknown bases class in event type: " + event.name)
 
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class EventMetaclass(type):
+    def __init__(cls, name, bases, dict):
+        super(EventMetaclass, cls).__init__(name, bases, dict)
+        if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
+                        'MetaEventWithText', 'EventBase']:
+            EventRegistry.register_event(cls, bases)
+
+
+# Python 2 and 3 spell metaclasses differently, calling one works in both
+EventBase = EventMetaclass(str('EventBase'), (object,), {})
+
+
+class AbstractEvent(EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -738,7 +744,7 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = next(data)
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
@@ -753,16 +759,16 @@ def read_varlen(data):
 
 
 def write_varlen(value):
-    chr1 = chr(value & 0x7F)
+    chr1 = bytearray([value & 0x7F])
     value >>= 7
     if value:
-        chr2 = chr((value & 0x7F) | 0x80)
+        chr2 = bytearray([(value & 0x7F) | 0x80])
         value >>= 7
         if value:
-            chr3 = chr((value & 0x7F) | 0x80)
+            chr3 = bytearray([(value & 0x7F) | 0x80])
             value >>= 7
             if value:
-                chr4 = chr((value & 0x7F) | 0x80)
+                chr4 = bytearray([(value & 0x7F) | 0x80])
                 res = chr4 + chr3 + chr2 + chr1
             else:
                 res = chr3 + chr2 + chr1
@@ -770,4 +776,4 @@ def write_varlen(value):
             res = chr2 + chr1
     else:
         res = chr1
-    return res
+    return bytes(res)
-- 
2.43.0


From bb607461b6b99e637d67b0bcc1a56c89bb94d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 03/82] fix: accept hashable tags on Python 3.10 and later

---
 gsapi/gspattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..2974aeb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -8,11 +8,15 @@ and Pattern, which are the main holders of musical symbolic information.
 
 from __future__ import absolute_import, division, print_function
 
-import collections
 import copy
 import logging
 import math
 
+try:
+    from collections.abc import Hashable
+except ImportError:  # Python 2
+    from collections import Hashable
+
 from . import gsdefs, gsutil
 
 # logger for pattern related operations
@@ -58,7 +62,7 @@ class Event(object):
         if isinstance(tag, list):
             gspatternLog.error("'tag' can't be a list, converting to tuple.")
             self.tag = tuple(tag)
-        elif not isinstance(tag, collections.Hashable):
+        elif not isinstance(tag, Hashable):
             gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
             self.tag = (tag,)
         else:
-- 
2.43.0


From ef0575512d4cdc9c581db8e12f22b038fc3cc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 04/82] fix: compare whole tags, not substrings, when searching
 events by tag

---
 gsapi/gspattern.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 2974aeb..31f1086 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -99,7 +99,7 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        return self.hasOneOfTags(event.tag if isinstance(event.tag, tuple) else (event.tag,))
 
     def hasOneOfTags(self, tags):
         """
@@ -115,7 +115,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or (isinstance(self.tag, tuple) and t in self.tag):
                 return True
         return False
 
@@ -774,8 +774,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -784,7 +783,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -836,8 +835,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -846,7 +844,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From 91d62de5313f9fcf5fbbf163e1bf32df249f4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 05/82] fix: return the result of allTagsAreEqualWith and
 getIdenticalEvents

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 31f1086..9105d3b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -148,7 +148,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -663,6 +663,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From b52f5b1a85aeb08611c432fba68c1a26e44cb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 06/82] fix: remove exactly the requested events from a pattern

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 9105d3b..02aa369 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -913,7 +913,7 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
+        for e in list(self.events):
             if e.hasOneOfTags(tuple(tags)):
                 self.removeEvent(e)
 
@@ -929,7 +929,7 @@ class Pattern(object):
                 idxToRemove += [idx]
             idx += 1
 
-        for i in idxToRemove:
+        for i in reversed(idxToRemove):
             del self.events[i]
 
     def removeOverlapped(self, usePitchValues=False):
-- 
2.43.0


From 1bc8235635effe865efd685d7177cebbfe24b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 07/82] fix: take the latest end of all events as the last note
 off

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 02aa369..4412823 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -683,7 +683,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max(e.endTime() for e in self.events)
         else:
             return None
 
-- 
2.43.0


From d4bf8914b8924cbcbb8b225473354972c2ead867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 08/82] fix: leave one event when several of the same voice
 start together in removeOverlapped

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4412823..5f0e5a9 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -964,6 +964,7 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 05bd4ff58d0ae37b8226f54f6de8f3e0b9245caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 09/82] fix: apply legato to the events of the pattern, per
 pitch or per tag

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5f0e5a9..752dc11 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -389,11 +389,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in self.getAllTags():
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From 436f63ea22b02e5b828dd64aa2e3e7d23a0fb797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 10/82] fix: repeat silences on every step in alignOnGrid

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 752dc11..31568c0 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -348,7 +348,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if e.hasOneOfTags(repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From 9da813b665be11e7b0015c49ad58e76979036e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 11/82] fix: tag transposed events with a pitch name, not with
 a list

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 31568c0..4219a43 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1180,7 +1180,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From 4463f43d9735e6c58faef5105aefd0be4e4d371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 12/82] fix: keep key, resolution and start time in
 copyWithoutEvents

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4219a43..dca5858 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -417,6 +417,9 @@ class Pattern(object):
         p.duration = self.duration
         p.bpm = self.bpm
         p.timeSignature = self.timeSignature
+        p.key = self.key
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         p.originFilePath = self.originFilePath
         p.name = self.name
         return p
-- 
2.43.0


From d579ef6dc42a3778cac55786582e9374fb61c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 13/82] fix: fill with previous event whatever the order of the
 events

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index dca5858..cfb33ef 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -430,6 +430,7 @@ class Pattern(object):
         the duration of the previous event.
         """
 
+        self.reorderEvents()
         onsets = []
         for e in self.events:
             if e.startTime not in onsets:
-- 
2.43.0


From 7ca847f23ddc2bb3e86309a87854533ee16532f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 14/82] fix: split patterns into equal lengths for any length
 and unnamed patterns

---
 gsapi/gspattern.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index cfb33ef..5a6f652 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1076,15 +1076,19 @@ class Pattern(object):
             a list of patterns of length desiredLength
         """
 
-        def _handleEvent(e, patterns, makeCopy):
-            p = int(math.floor(e.startTime * 1.0 / desiredLength))
+        def _emptySlice(p):
+            res = patternToSlice.copyWithoutEvents()
+            res.startTime = p * desiredLength
+            res.duration = desiredLength
+            res.name = (patternToSlice.name or "") + "_" + str(p)
+            return res
+
+        def _handleEvent(e, patterns, makeCopy, p=None):
+            if p is None:
+                p = int(math.floor(e.startTime * 1.0 / desiredLength))
             numPattern = str(p)
             if numPattern not in patterns:
-                patterns[numPattern] = patternToSlice.copyWithoutEvents()
-                patterns[numPattern].startTime = p * desiredLength
-                patterns[numPattern].duration = desiredLength
-                patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                patterns[numPattern] = _emptySlice(p)
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
@@ -1092,7 +1096,7 @@ class Pattern(object):
                 newOnset = (p + 1) * desiredLength
                 remainingEvent.duration = remainingEvent.endTime() - newOnset
                 remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy)
+                _handleEvent(remainingEvent, patterns, makeCopy, p + 1)
                 newEv.duration = (p + 1) * desiredLength - e.startTime
 
             newEv.startTime -= p * desiredLength
@@ -1113,7 +1117,7 @@ class Pattern(object):
                 curPattern = patterns[pName]
                 curPattern.durationToLastEvent()
             else:
-                curPattern = None
+                curPattern = _emptySlice(p)
             if (not supressEmptyPattern) or curPattern:
                 res += [curPattern]
         return res
-- 
2.43.0


From ec8c3fa43d4b66268b410b0093729417d244ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 15/82] fix: save and load patterns in JSON with indexed tags

---
 gsapi/gspattern.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5a6f652..abefd8e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -539,8 +539,8 @@ class Pattern(object):
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=tags[e['tagIdx']] if 'tagIdx' in e else
+                                          tuple([tags[f] for f in e['tagsIdx']])
                                       )]
         else:
             for e in json['eventList']:
@@ -1010,19 +1010,15 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = list(self.getAllTags())
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagIdx':   allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 8c33df5bd68033b2427af17dcb30beee68e2dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 16/82] fix: keep nested tuples when saving JSON with
 conserveTuple

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..308e6f9 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -428,7 +428,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 6de9e76a54e0acabb3be998765650a754cdef376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 17/82] fix: keep start time, key and resolution of patterns
 saved in JSON

---
 gsapi/gspattern.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index abefd8e..3085c61 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -516,6 +516,9 @@ class Pattern(object):
         self.duration = json['timeInfo']['duration']
         self.bpm = json['timeInfo']['bpm']
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
+        self.startTime = json['timeInfo'].get('startTime', self.startTime)
+        self.key = json.get('key', self.key)
+        self.resolution = json.get('resolution', self.resolution)
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
                 if not name:
@@ -1005,7 +1008,9 @@ class Pattern(object):
         res['name'] = self.name
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
-                           'timeSignature': self.timeSignature}
+                           'timeSignature': self.timeSignature, 'startTime': self.startTime}
+        res['key'] = self.key
+        res['resolution'] = self.resolution
         res['eventList'] = []
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
-- 
2.43.0


From 5ead59fc7a23ec22062ce4e431ac845cf8083196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 18/82] fix: read MIDI headers of non standard size

---
 gsapi/midiio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index f604917..cb3f27e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -76,8 +76,9 @@ class FileReader(object):
         resolution = data[3]
         # XXX: the assumption is that any remaining bytes
         # in the header are padding
-        if hdrsz > DEFAULT_MIDI_HEADER_SIZE:
-            midifile.read(hdrsz - DEFAULT_MIDI_HEADER_SIZE)
+        # (the size counts neither the magic nor the size field itself)
+        if hdrsz > DEFAULT_MIDI_HEADER_SIZE - 8:
+            midifile.read(hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
-- 
2.43.0


From 29c4c81a88a5b9fc78b0b5bbaef519f127d7eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 19/82] fix: write a full status byte after meta and sysex
 events

---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index cb3f27e..48d53fc 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -177,11 +177,13 @@ class FileWriter(object):
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
+            self.RunningStatus = None
             ret += bytearray([event.statusmsg, event.metacommand])
             ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret.append(0xF0)
             ret += bytearray(event.data)
             ret.append(0xF7)
-- 
2.43.0


From 10499141f39b299bcf7596b5a238bbf2933f401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 20/82] fix: log unknown MIDI meta events without a formatting
 error

---
 gsapi/midiio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 48d53fc..4931ffc 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -110,7 +110,7 @@ class FileReader(object):
         if MetaEvent.is_event(stsmsg):
             cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
@@ -618,8 +618,9 @@ class UnknownMetaEvent(MetaEvent):
         self.metacommand = kw['metacommand']
 
     def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        _kw = {'metacommand': self.metacommand, 'tick': self.tick, 'data': self.data}
+        _kw.update(kw)
+        return self.__class__(**_kw)
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0


From 761c753da43dac200004111305764ef62fbc544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 21/82] fix: access the only data byte of channel after touch
 events

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 4931ffc..92dc598 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -507,10 +507,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 0a7983dc896a37d98620298c22dccdccb9e3003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 22/82] fix: round the tempo written to MIDI files to the
 nearest microsecond

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 92dc598..ac8be5d 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -651,7 +651,7 @@ class SetTempoEvent(MetaEvent):
     length = 3
 
     def set_bpm(self, bpm):
-        self.mpqn = int(float(6e7) / bpm)
+        self.mpqn = int(float(6e7) / bpm + 0.5)
 
     def get_bpm(self):
         return float(6e7) / self.mpqn
-- 
2.43.0


From 046cd9b228ff5395ef6058c926371757ef92f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 23/82] fix: write the text of MIDI text events

---
 gsapi/gsio.py   | 2 +-
 gsapi/midiio.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 308e6f9..077ff06 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -331,7 +331,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Write Metadata
     track.append(midiio.TimeSignatureEvent(numerator=myPattern.timeSignature[0],
                                            denominator=myPattern.timeSignature[1]))
-    track.append(midiio.TrackNameEvent(text=myPattern.name))
+    track.append(midiio.TrackNameEvent(text=myPattern.name or ''))
     track.append(midiio.SetTempoEvent(bpm=myPattern.bpm))
     if myPattern.key:
         keyTuple = __keyToMidiFormat(myPattern.key)
diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ac8be5d..cd9cd6e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -554,6 +554,9 @@ class MetaEventWithText(MetaEvent):
         super(MetaEventWithText, self).__init__(**kw)
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
+        elif 'data' not in kw:
+            text = self.text if isinstance(self.text, bytes) else self.text.encode('latin-1', 'replace')
+            self.data = list(bytearray(text))
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From 4c703eb311bc5fc2fad26b012a49adb99384a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 24/82] fix: keep the tick mode when slicing MIDI patterns and
 tracks

---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index cd9cd6e..c638d9f 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -230,6 +230,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    range(*indices)))
         else:
@@ -266,7 +267,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          range(*indices)))
+                          range(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From e63cf0aee607f4cec83440fd108b86927d9117c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 25/82] fix: read and write MIDI sysex events with their length

---
 gsapi/midiio.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index c638d9f..368a601 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -119,13 +119,11 @@ class FileReader(object):
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
-            data = []
-            while True:
-                datum = next(trackdata)
-                if datum == 0xF7:
-                    break
-                data.append(datum)
-            return SysexEvent(tick=tick, data=data)
+            # (0xF0 starts a message, 0xF7 continues or escapes one: what
+            # follows is its length and its data, a closing 0xF7 included)
+            datalen = read_varlen(trackdata)
+            data = [next(trackdata) for x in range(datalen)]
+            return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
             key = stsmsg & 0xF0
@@ -184,9 +182,9 @@ class FileWriter(object):
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
             self.RunningStatus = None
-            ret.append(0xF0)
+            ret.append(event.statusmsg)
+            ret += write_varlen(len(event.data))
             ret += bytearray(event.data)
-            ret.append(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
@@ -539,7 +537,7 @@ class SysexEvent(Event):
     length = 'varlen'
 
     def is_event(cls, statusmsg):
-        return cls.statusmsg == statusmsg
+        return statusmsg in (0xF0, 0xF7)
 
     is_event = classmethod(is_event)
 
-- 
2.43.0


From 25018cf7bfb5ca63e54551c6963e346b1d76e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 26/82] fix: round event times to the nearest tick when
 exporting MIDI

---
 gsapi/gsio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 077ff06..c9582d4 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -341,8 +341,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     pattern.append(track)
     beatToTick = pattern.resolution
     for e in myPattern.events:
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+        startTick = int(beatToTick * e.startTime + 0.5)
+        endTick = int(beatToTick * e.endTime() + 0.5)
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
@@ -355,7 +355,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick + 0.5)))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 34ab10f4c5157d0d0b3a0ed285d08508676a0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 27/82] fix: end exported MIDI tracks after their last event,
 and order notes by start

---
 gsapi/gsio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c9582d4..f9bc605 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -340,7 +340,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(beatToTick * e.startTime + 0.5)
         endTick = int(beatToTick * e.endTime() + 0.5)
         # pitch = e.pitch
@@ -354,11 +354,11 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
-    # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick + 0.5)))
+    # and the "End of Track" Event, after all others
+    track.sort(key=lambda e: e.tick)
+    track.append(midiio.EndOfTrackEvent(tick=max(int(myPattern.duration * beatToTick + 0.5), track[-1].tick)))
 
     # make tick relatives
-    track.sort(key=lambda e: e.tick)
     track.make_ticks_rel()
 
     # Save the pattern to disk
-- 
2.43.0


From c07325aa4512c004b8b4e93ed9619b155aa60404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 28/82] fix: translate tags with the midiMap given when
 exporting MIDI

---
 gsapi/gsio.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index f9bc605..bc9d975 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -304,6 +303,19 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     return res
 
 
+def __pitchFromTag(event, midiMap):
+    if isinstance(midiMap, dict):
+        tags = event.tag if isinstance(event.tag, tuple) else ()
+        for tag in (event.tag,) + tags:
+            pitch = midiMap.get(tag)
+            # a mapping can be a pitch, a tuple (pitch, channel) or a list of those
+            while isinstance(pitch, (list, tuple)) and pitch:
+                pitch = pitch[0]
+            if isinstance(pitch, int):
+                return pitch
+    return event.pitch
+
+
 def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output/", name=None):
     """
     Function to write a Pattern to a MIDI file.
@@ -345,12 +357,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         endTick = int(beatToTick * e.endTime() + 0.5)
         # pitch = e.pitch
         channel = 1
-        if isinstance(midiMap, tuple):
-            pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
-            pitch = midiMap[e.tag]
-        else:
-            pitch = e.pitch
+        pitch = __pitchFromTag(e, midiMap)
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
-- 
2.43.0


From 5e0a12b023c72d1e266c7753fb3f1c8743994d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 29/82] fix: name minor keys in MIDI files after their tonic

---
 gsapi/gsdefs.py | 16 ++++++++++++++++
 gsapi/gsio.py   |  9 ++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..897d405 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -173,6 +173,22 @@ midiKey = {-7: 'Cb',
            6: 'F#',
            7: 'C#'}
 
+midiMinorKey = {-7: 'Ab',
+                -6: 'Eb',
+                -5: 'Bb',
+                -4: 'F',
+                -3: 'C',
+                -2: 'G',
+                -1: 'D',
+                0: 'A',
+                1: 'E',
+                2: 'B',
+                3: 'F#',
+                4: 'C#',
+                5: 'G#',
+                6: 'D#',
+                7: 'A#'}
+
 noteMap= {"c-1":   0,
           "c#-1":  1,
           "d-1":   2,
diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index bc9d975..86f2dd8 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -29,10 +29,12 @@ gsioLog.setLevel(level=logging.WARNING)
 
 def __keyToMidiFormat(keyString):
     mode = 0
+    keys = gsdefs.midiKey
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+        keys = gsdefs.midiMinorKey
+    tonic = list(keys.keys())[list(keys.values()).index(keyString)]
     return tonic, mode
 
 
@@ -62,9 +64,10 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
                     if foundKey:
                         gsioLog.error(myPattern.name + ": found multiple keys! Not supported.")
                     foundKey = True
-                    keyName = gsdefs.midiKey[e.alternatives]
                     if e.minor == 1:
-                        keyName += "m"
+                        keyName = gsdefs.midiMinorKey[e.alternatives] + "m"
+                    else:
+                        keyName = gsdefs.midiKey[e.alternatives]
                     myPattern.key = keyName
 
                     # if foundTimeSignatureEvent:
-- 
2.43.0


From 0afad9a444f6540c3ebfd74940129287f225bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 30/82] fix: accept lists of pitch names as note mapping, and
 leave the caller's mapping as it is

---
 gsapi/gsio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 86f2dd8..0e12aa2 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -84,13 +84,14 @@ def __tagFromMidiNote(_noteToTag):
     noteToTag = copy.copy(_noteToTag)
     if noteToTag == "pitchName":
         noteToTag = {"pitchName": ""}
+    elif isinstance(noteToTag, (list, tuple)):
+        noteToTag = {"pitchName": list(noteToTag)}
     for n in noteToTag:
         if n == "pitchName":
             if not noteToTag["pitchName"]:
                 noteToTag["pitchName"] = gsdefs.defaultPitchNames
         else:
-            if not isinstance(noteToTag[n], list):
-                noteToTag[n] = [noteToTag[n]]
+            noteToTag[n] = list(noteToTag[n]) if isinstance(noteToTag[n], list) else [noteToTag[n]]
             for i in range(len(noteToTag[n])):
                 if isinstance(noteToTag[n][i], int):
                     noteToTag[n][i] = (noteToTag[n][i], "*")
-- 
2.43.0


From ad2bd7ec47e905dc56294efd77e7099d82c915f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 31/82] fix: resolve tags from MIDI track names

---
 gsapi/gsio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 0e12aa2..bcc088f 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -116,7 +116,9 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
+    if len(res) == 1:
+        return res[0]
     return res
 
 
@@ -147,6 +149,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
@@ -225,7 +228,6 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
 
 def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTrackName=False,
                  filterOutNotMapped=True, checkForOverlapped=False):
-    # TODO: tagFromTrackName=True returns an eventless pattern!
     """
     Loads a MIDI file as a pattern.
 
-- 
2.43.0


From 8de1608d62e2b335ade4ea53a0541eea10e602f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 32/82] fix: select MIDI tracks by name or index, named or not

---
 gsapi/gsio.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index bcc088f..3734e1d 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -148,23 +148,19 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
         noteTag = ()
+        trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
+        trackName = trackNames[0] if trackNames else ""
+        if tracksToGet and not ((trackName in tracksToGet) or (trackIdx in tracksToGet)):
+            gsioLog.info("skipping track: %i %s" % (trackIdx, trackName))
+            trackIdx += 1
+            continue
         for e in tracks:
-            if shouldSkipTrack:
-                continue
             if not tagFromTrackName:
                 noteTag = ()
             if midiio.MetaEvent.is_event(e.statusmsg):
                 if e.metacommand == midiio.TrackNameEvent.metacommand:
-                    if tracksToGet and not (
-                        (e.text in tracksToGet) or (trackIdx in tracksToGet)):
-                        gsioLog.info(
-                            "skipping track: %i %s" % (trackIdx, e.text))
-                        shouldSkipTrack = True
-                        continue
-                    else:
-                        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
+                    gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
 
                     if tagFromTrackName:
                         noteTag = __tagFromTrackName(e.text, noteToTagMap)
@@ -301,7 +297,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From a0e775da658d74c516ee656a46239ea2624f0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 33/82] fix: end each imported note at the matching note off of
 its channel

---
 gsapi/gsio.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3734e1d..1138a83 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -144,11 +144,13 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     tick_to_quarter_note = 1.0 / globalMidi.resolution
     myPattern.events = []
     lastNoteOff = 0
+    hangingNotes = []
     notFoundTags = []
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
         noteTag = ()
+        openNotes = {}
         trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
         trackName = trackNames[0] if trackNames else ""
         if tracksToGet and not ((trackName in tracksToGet) or (trackIdx in tracksToGet)):
@@ -196,27 +198,32 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if extremeLog: gsioLog.debug("on %d %f" % (pitch, curBeat))
                     myPattern.events += [gspattern.Event(startTime=curBeat, duration=-1, pitch=pitch,
                                                          velocity=velocity, tag=noteTag)]
+                    openNotes.setdefault((e.channel, pitch), []).append(myPattern.events[-1])
                 if isNoteOff:
                     if extremeLog:
                         gsioLog.debug("off %d %f" % (pitch, curBeat))
-                    foundNoteOn = False
-                    isTrueNoteOff = midiio.NoteOffEvent.is_event(e.statusmsg)
-                    for i in reversed(myPattern.events):
-                        if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
-                                                                    or curBeat > i.startTime) and i.duration <= 0.0001:
-                            foundNoteOn = True
-                            i.duration = max(0.0001, curBeat - i.startTime)
-                            lastNoteOff = max(curBeat, lastNoteOff)
-                            gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
-                            break
-                    if not foundNoteOn:
-                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                    opened = openNotes.get((e.channel, pitch), [])
+                    # the last note started before, else the last one starting now
+                    started = [i for i in opened if i.startTime < curBeat] or opened
+                    if started:
+                        i = started[-1]
+                        opened[:] = [o for o in opened if o is not i]
+                        i.duration = max(0.0001, curBeat - i.startTime)
+                        lastNoteOff = max(curBeat, lastNoteOff)
+                        gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
+                    else:
+                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s , %s " %
+                                        (e, noteTag, curBeat))
+        for opened in openNotes.values():
+            hangingNotes += opened
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
     lastBarPos = math.ceil(lastNoteOff * 1.0 / barSize) * barSize
     myPattern.duration = trackDuration or lastBarPos
+    # notes without note off sound until the end
+    for i in hangingNotes:
+        i.duration = max(0.0001, myPattern.duration - i.startTime)
     if checkForOverlapped:
         myPattern.removeOverlapped(usePitchValues=True)
     return myPattern
-- 
2.43.0


From 9d0e0214b4c7f7e44d60452c5ea8bc432d0b3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 34/82] fix: generate patterns from a Markov style

---
 gsapi/gsstyles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..d359d5e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,7 +4,7 @@ import copy
 import logging
 import random
 
-from .gspattern import Pattern
+from .gspattern import Event, Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
@@ -460,7 +460,7 @@ class PatternMarkov(object):
                     markovLog.warning(
                             "not found combination %s " % (','.join(newPast)))
 
-        pattern = gspattern.Pattern()
+        pattern = Pattern()
         idx = 0
 
         stepSize = 1.0 * self.loopDuration / self.numSteps
@@ -469,7 +469,7 @@ class PatternMarkov(object):
             for tagElem in el:
                 if tagElem != 'silence':
                     pattern.events += [
-                        gspattern.Event(idx * stepSize, stepSize, 100, 127,
+                        Event(idx * stepSize, stepSize, 100, 127,
                                         tag=tagElem)]
 
             idx += 1
-- 
2.43.0


From 7f201d7dee0e457098c3c1ac34edd0ac75230e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 35/82] fix: choose the sampled outcome of a Markov transition

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index d359d5e..f8b34df 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -422,7 +422,7 @@ class PatternMarkov(object):
                 r = random.random()
                 for i in range(1, len(bins)):
                     if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From e9e2642a437ad2d5b9035f998f4f7375cf6266ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 36/82] fix: start generated Markov patterns from an observed
 start

---
 gsapi/gsstyles.py | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index f8b34df..1603880 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -386,22 +386,6 @@ class PatternMarkov(object):
             seed: seed used for random initialisation of pattern (value of None generates a new one)
         """
         random.seed(seed)
-        potentialStartEvent = []
-
-        def _getAvailableAtStep(step):
-            res = []
-            if step < 0:
-                step += len(self.transitionTable)
-            for n in self.transitionTable[step]:
-                for t in self.transitionTable[step][n]:
-                    res += [t]
-            return res
-
-        def _isValidState(step, previousTags):
-            d = self.transitionTable[step]
-            # print(d)
-            # print(previousTags)
-            return previousTags in d
 
         def _generateEventAtStep(step, previousTags):
 
@@ -427,16 +411,7 @@ class PatternMarkov(object):
 
             return list(d.keys())[chosenIdx]
 
-        cIdx = self.order
-        startHypothesis = tuple()
-        maxNumtries = 30
-        while not _isValidState(cIdx, startHypothesis):
-            startHypothesis = tuple()
-            for n in range(self.order):
-                startHypothesis += (random.choice(_getAvailableAtStep(n)),)
-            maxNumtries -= 1
-            if maxNumtries == 0:
-                raise Exception("Can't find start hypothesis in markov")
+        startHypothesis = random.choice(list(self.transitionTable[self.order].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0


From f609e98c41ccaa91e4640ac3989152008da538e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 37/82] fix: report missing Markov combinations without a type
 error

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 1603880..3f692d8 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -429,11 +429,11 @@ class PatternMarkov(object):
                 if maxTries == 0:
                     markovLog.error(
                             "not found combination %s at step %i \n transitions\n %s" % (
-                                ','.join(newPast), i, self.transitionTable[i]))
+                                str(newPast), i, self.transitionTable[i]))
                     raise Exception(" can't find combination in markov")
                 else:
                     markovLog.warning(
-                            "not found combination %s " % (','.join(newPast)))
+                            "not found combination %s " % (str(newPast)))
 
         pattern = Pattern()
         idx = 0
-- 
2.43.0


From 8536eb1ad6e010af0b369def27fb83a95f004b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 38/82] fix: give simultaneous events one order in Markov
 states

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 3f692d8..dc1010a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -474,7 +474,7 @@ class PatternMarkov(object):
                 curL += [e.tag]
 
             # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            res += (tuple(sorted(set(curL), key=str)),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From a41f036e77be92ad47c27c96adeece1156e7d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 39/82] fix: save and load the state of styles

---
 gsapi/gsstyles.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index dc1010a..583094e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -105,7 +105,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -113,7 +114,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
@@ -169,7 +171,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
@@ -498,7 +500,9 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # (tuples can't be keys in JSON)
+        table = [[[past, list(d[past].items())] for past in d] for d in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -507,7 +511,11 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _toTuple(tags):
+            return tuple(_toTuple(t) for t in tags) if isinstance(tags, (list, tuple)) else tags
+
+        self.transitionTable = [{_toTuple(past): {_toTuple(event): p for event, p in events} for past, events in d}
+                                for d in state["transitionTable"]] or {}
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From ffa68e8d7f71964ad326af2ee932e357924ce7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 40/82] fix: use the seed when choosing a random pattern from a
 database style

---
 gsapi/gsstyles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 583094e..d3588d3 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -144,6 +144,8 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
+            if seed is not None:
+                random.seed(seed)
             return self.patternList[int(random.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
-- 
2.43.0


From 440bbbde5c9302c7af3dd5ed907337ad4b522b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 41/82] fix: follow the requested densities in AgnosticDensity,
 from empty to full

---
 gsapi/gstransformers.py | 95 ++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 68 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..ea738c7 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -103,92 +103,51 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                state = self.currentState[key]
+                numNotes = len(state['notes']) + len(state['removedNotes'])
+                numSilences = len(state['silences']) + len(state['addedNotes'])
+                value = max(0, min(value, 2))
+                if value <= 1:
+                    number = int(numNotes * value + 0.5)
+                else:
+                    number = numNotes + int(numSilences * (value - 1) + 0.5)
+                while len(state['notes']) + len(state['addedNotes']) < number:
+                    self.addEventForTag(key)
+                while len(state['notes']) + len(state['addedNotes']) > number:
+                    self.removeEventForTag(key)
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['silences']
+    def addEventForTag(self, tag):
+        state = self.currentState[tag]
         # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
+        isRemovedNote = len(state['removedNotes']) > 0
+        availableIdx = state['removedNotes'] if isRemovedNote else state['silences']
 
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
 
-        idxToAdd = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+        idxToAdd = availableIdx.pop(idx)
+        state['notes' if isRemovedNote else 'addedNotes'] += [idxToAdd]
+        tPattern = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        newEv = (tPattern.getStartingEventsAtTime(idxToAdd) or tPattern.events)[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
-
+    def removeEventForTag(self, tag):
+        state = self.currentState[tag]
         # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
+        isAddedNote = len(state['addedNotes']) > 0
+        availableIdx = state['addedNotes'] if isAddedNote else state['notes']
 
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
 
-        idxToRemove = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
+        idxToRemove = availableIdx.pop(idx)
+        state['silences' if isAddedNote else 'removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
 
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-- 
2.43.0


From 0a41a1cee29cc20505719a8f480d3861a08759e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 42/82] fix: collect the tags of chord components in Chordify

---
 gsapi/gstransformers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index ea738c7..5e03644 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -254,13 +254,12 @@ class Chordify(BaseTransformer):
         """Return a transformed Pattern"""
         self.outputPattern = self.inputPattern.copyWithoutEvents()
         p = -1
-        for e in self.inputPattern:
+        for e in sorted(self.inputPattern.events, key=lambda x: x.startTime):
             if e.startTime != p:
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From 11b584e26e694dce4f394e4340ef56c73d945c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 43/82] fix: find the best chord even when all scores are
 negative

---
 gsapi/gsdescriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index 02d28fc..c25fbf4 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -18,7 +18,7 @@ def intervalListToProfile(intervalList, length=12):
 
 
 def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDuplicates=False):
-    maxScore = 0
+    maxScore = float('-inf')
     if allowDuplicates:
         bestProfile = []
         bestRoot = []
@@ -76,7 +76,7 @@ def convolveWithPitchProfile(chromas, pitchProfile, penalityWeight):
 
 
 def findMaxAndIdx(convolution):
-    M = 0
+    M = float('-inf')
     Mi = -1
     i = 0
     for chroma in convolution:
-- 
2.43.0


From 5f5c34c2e673a309143366745ad1e0282f5d150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 44/82] fix: compare the alteration by value when naming notes

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From a6314f9078b2e0c5a0d2c6a0775869564aadc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 45/82] fix: use the requested slice type for the chords
 viewpoint

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3085c61..32870a5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -629,7 +629,8 @@ class Pattern(object):
             if name == "chords":
                 from .gsdescriptors import Chord
                 self.viewpoints[name] = _computeViewpoint(originPattern=self, descriptor=Chord(),
-                                                          sliceType=4, name=name)
+                                                          sliceType=4 if sliceType is None else sliceType,
+                                                          name=name)
         # can use it as a return value
         return self.viewpoints[name]
 
-- 
2.43.0


From a81f683e4b2c77631ddc5d36868b91b27b2d3d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 46/82] fix: correct the intervals of the min(add11) and min9
 chords

---
 gsapi/gsdefs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 897d405..fd8df84 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,7 +42,7 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From 38b80b38190023df78dc3c7230e0f13e62b9d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 47/82] fix: accept durations that are not integers when
 binarizing rhythms

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..795dfe3 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -926,12 +926,12 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
-    rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
+    rhythm = np.zeros((int(np.ceil(noBeats_bass)), resolution), dtype=int)
 
     for o in aPattern:
         # quantize to the closest subdivision
         i, d = divmod(o, 1)  # i = row(beat number) , d = column (beat subdivision)
         d_ = (abs(subdiv_aux - d)).argmin()
-        if i < noBeats_bass:
+        if i < len(rhythm):
             rhythm[int(i), d_] = 1
     return rhythm
-- 
2.43.0


From 2fede8a7eeff8da530493b77f54ef13faca475b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 48/82] fix: learn the transition to the last beat pattern of a
 sequence

---
 gsapi/bassmine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 795dfe3..bb98c63 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -128,6 +128,7 @@ class MarkovModel:
             elif 0 < count < len(pattern) - 1:
                 self.update_temporal(pattern[count - 1], p)
             elif count == len(pattern) - 1:
+                self.update_temporal(pattern[count - 1], p)
                 self.update_temporal(pattern[count], pattern[0])
             count += 1
 
-- 
2.43.0


From f12e08cce802b4cc88a6f9be9dfda3e7c7c5cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 49/82] fix: keep the counts of a Markov model when normalizing
 it

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index bb98c63..cbde30e 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -180,8 +180,8 @@ class MarkovModel:
         Normalize matrices
         """
         self.initial_model = self.support_initial / sum(self.support_initial)
-        self.temporal_model = normalize(self.support_temporal)
-        self.interlocking_model = normalize(self.support_interlocking)
+        self.temporal_model = normalize(self.support_temporal.copy())
+        self.interlocking_model = normalize(self.support_interlocking.copy())
         self.normalized = True
 
     def get_initial(self):
-- 
2.43.0


From 7d97d057dc9be141cbf8b730613a6e56998f51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 50/82] fix: propagate constraints to all beats of constrained
 bassline models

---
 gsapi/bassmine.py | 80 ++++++++++++++---------------------------------
 1 file changed, 24 insertions(+), 56 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index cbde30e..afd9cfb 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -281,6 +281,24 @@ class MarkovModel:
         return pitch_dict
 
 
+def make_arc_consistent(V):
+    """
+    Delete, from last to first step, the values without continuation in the next step
+
+    Args:
+        V: list of dictionaries {key: set of continuations}, one for each step
+
+    """
+    next_key = None
+    for step in reversed(range(len(V))):
+        for key in list(V[step].keys()):
+            if next_key is not None:
+                V[step][key] = V[step][key].intersection(next_key)
+            if len(V[step][key]) == 0:
+                del V[step][key]
+        next_key = set([str(x) for x in V[step].keys()])
+
+
 def constrainMM(markov_model, target, _path="output/"):
     """
 
@@ -364,31 +382,7 @@ def constrainMM(markov_model, target, _path="output/"):
                 # print( "V", step, V[step].keys())
 
     ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    make_arc_consistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
@@ -504,41 +498,15 @@ def variationMM(markov_model, target, _path="output/"):
     # print( V)
 
 
+    if target[-1] >= 0:  # Last beat don't vary
+        for key, val in V[-1].items():
+            V[-1][key] = val.intersection({str(target[-1])})
+
     ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    make_arc_consistent(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
 
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
-
     # for value in V:
     #	print( value)
     #	print( "\n")
-- 
2.43.0


From 483f12d83cad94623314de10caf89a9a0fd07509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 51/82] fix: save the initial states of constrained bassline
 models in JSON

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index afd9cfb..ddbbbb8 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -392,7 +392,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
-- 
2.43.0


From 736131bc070f3162776e613549647fc5db839f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 52/82] fix: generate as many beats as the target has, not as
 it has events

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ddbbbb8..1b1987d 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -656,8 +656,8 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
+        if target.duration < beat_length:
+            beat_length = int(np.ceil(target.duration))
 
         NHMM = constrainMM(markov_model, target)
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
-- 
2.43.0


From 4e2211d3736635aef29a0caf74f0a3737017ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 53/82] fix: vary empty beats, and keep the last beat, in
 bassline variations

---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 1b1987d..8132bf7 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -745,7 +745,8 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        # (the first beat is always preserved, the id of an empty beat has no sign)
+        masked_target = [target_id[i] if i == 0 or variation_mask[i] > 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From 707285486ce6fd00f4e19e6b8a8eb05b88d3effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 54/82] fix: translate rhythms to ids that JSON can store

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 8132bf7..20506c3 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -870,7 +870,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From cf0472c84fb9ffb2f5126a4d34d9e0fc09ab0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 55/82] fix: keep each onset once when rounding makes
 simultaneous notes overlap

Cutting an event at the next onset can leave it an ulp longer than the gap;
a second event on that onset then added the cut event again.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 32870a5..c5b2d5f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -973,7 +973,7 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
-                            break
+                        break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 7a11456d23a7950e7dcc2440f773106b1c4e6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 56/82] fix: keep the duration of imported notes shorter than
 0.0001 beats

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 1138a83..f84da80 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -208,7 +208,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if started:
                         i = started[-1]
                         opened[:] = [o for o in opened if o is not i]
-                        i.duration = max(0.0001, curBeat - i.startTime)
+                        i.duration = curBeat - i.startTime if curBeat > i.startTime else 0.0001
                         lastNoteOff = max(curBeat, lastNoteOff)
                         gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                     else:
@@ -223,7 +223,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     myPattern.duration = trackDuration or lastBarPos
     # notes without note off sound until the end
     for i in hangingNotes:
-        i.duration = max(0.0001, myPattern.duration - i.startTime)
+        i.duration = myPattern.duration - i.startTime if myPattern.duration > i.startTime else 0.0001
     if checkForOverlapped:
         myPattern.removeOverlapped(usePitchValues=True)
     return myPattern
-- 
2.43.0


From 291a47d965f4f585f49290cfb1efa6d8b2c6c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 57/82] fix: give a note each matching tag once

---
 gsapi/gsio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index f84da80..29db7b3 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -107,6 +107,7 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From 2e7be199320e5bf015c2be2c7938d9e43d9c63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 58/82] fix: a damaged event length does not allocate that much
 memory on Python 2

---
 gsapi/midiio.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 368a601..82aa0ac 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -115,14 +115,14 @@ class FileReader(object):
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [next(trackdata) for x in range(datalen)]
+            data = read_data(trackdata, datalen)
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             # (0xF0 starts a message, 0xF7 continues or escapes one: what
             # follows is its length and its data, a closing 0xF7 included)
             datalen = read_varlen(trackdata)
-            data = [next(trackdata) for x in range(datalen)]
+            data = read_data(trackdata, datalen)
             return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
@@ -764,6 +764,14 @@ def read_varlen(data):
     return value
 
 
+def read_data(data, length):
+    # (a damaged length can be any number: no list is made that long)
+    res = []
+    while len(res) < length:
+        res.append(next(data))
+    return res
+
+
 def write_varlen(value):
     chr1 = bytearray([value & 0x7F])
     value >>= 7
-- 
2.43.0


From 7f91f642fbb197faf13752dede52e01505910224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 59/82] fix: a damaged header or track size does not allocate
 that much memory

---
 gsapi/midiio.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 82aa0ac..39fb2a8 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -78,7 +78,7 @@ class FileReader(object):
         # in the header are padding
         # (the size counts neither the magic nor the size field itself)
         if hdrsz > DEFAULT_MIDI_HEADER_SIZE - 8:
-            midifile.read(hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
+            read_chunk(midifile, hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
@@ -93,7 +93,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(bytearray(midifile.read(trksz)))
+        trackdata = iter(read_chunk(midifile, trksz))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -764,6 +764,17 @@ def read_varlen(data):
     return value
 
 
+def read_chunk(midifile, size):
+    # (a damaged size can be up to 4 GB: no buffer is made that big)
+    res = bytearray()
+    while len(res) < size:
+        part = midifile.read(min(size - len(res), 1 << 16))
+        if not part:
+            break
+        res += bytearray(part)
+    return res
+
+
 def read_data(data, length):
     # (a damaged length can be any number: no list is made that long)
     res = []
-- 
2.43.0


From 071116f282fb4359c1ce14b63fdb1f86da478494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 60/82] fix: JSON keeps the link of viewpoints to a pattern
 without events

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c5b2d5f..088efcd 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -524,7 +524,7 @@ class Pattern(object):
                 if not name:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
@@ -1007,7 +1007,7 @@ class Pattern(object):
         res = {}
         self.durationToLastEvent()
         res['name'] = self.name
-        if self.originPattern: res['originPattern'] = self.originPattern.name
+        if self.originPattern is not None: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature, 'startTime': self.startTime}
         res['key'] = self.key
-- 
2.43.0


From 8a9c4ee7bc7e522daff7e10012392c1b671dc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 61/82] fix: load the JSON of a viewpoint that was saved alone

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 088efcd..ae4d1d3 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -521,7 +521,8 @@ class Pattern(object):
         self.resolution = json.get('resolution', self.resolution)
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
-                if not name:
+                # (a viewpoint saved alone is loaded alone)
+                if not name or parentPattern is None:
                     return None
                 checkedPattern = parentPattern
                 while checkedPattern is not None:
-- 
2.43.0


From b10581c9123d821c63a1955ec886788c4d2fbb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 62/82] fix: print a Markov style's table on Python 3

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index d3588d3..fbc2652 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -347,7 +347,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From f3968f7700e11dd7fb1e294c905b8df2bda320ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 63/82] fix: match file names with brackets or wildcards

---
 gsapi/gsutil.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index fa171d0..09ebff7 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -79,18 +79,15 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
 
     """
     import os
-    import fnmatch
 
     # get the base name without the path
     basename = os.path.basename(strip_suffix(filename, suffix))
     # init return list
     matches = []
-    # look for files with the same base name in the files_list
-    if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
-    else:
-        pattern = "*%s" % basename
-    for match in fnmatch.filter(match_list, pattern):
+    for match in match_list:
+        # only files with the given suffix
+        if match_suffix is not None and not match.endswith(match_suffix):
+            continue
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
             matches.append(match)
-- 
2.43.0


From ef9d58fc8d883845a8fc5f064e436ae09f9329ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 64/82] fix: search files in folders with brackets or wildcards
 in their name

---
 gsapi/gsutil.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 09ebff7..07e2858 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -113,8 +113,9 @@ def search_files(path, suffix=None):
         List of files.
 
     """
-    import os
     import glob
+    import os
+    import re
 
     # determine the files
     if isinstance(path, list):
@@ -124,15 +125,16 @@ def search_files(path, suffix=None):
         for f in path:
             file_list.extend(search_files(f, suffix))
     elif os.path.isdir(path):
-        # use all files in the given path
+        # use all files in the given path (its name is no glob)
+        folder = re.sub(r"([*?\[])", r"[\1]", path)
         if suffix is None:
-            file_list = glob.glob("%s/*" % path)
+            file_list = glob.glob("%s/*" % folder)
         elif isinstance(suffix, list):
             file_list = []
             for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
+                file_list.extend(glob.glob("%s/*%s" % (folder, s)))
         else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+            file_list = glob.glob("%s/*%s" % (folder, suffix))
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From 44cfe0a77407cb7b665802541323058de76f0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 65/82] fix: constrain models having beat patterns that nothing
 follows

---
 gsapi/bassmine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 20506c3..bc31b65 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -358,8 +358,9 @@ def constrainMM(markov_model, target, _path="output/"):
         #	print( "Kick constrain", target_setlist[1])
         #	print( "Intersection", Dom_B[int(f)].intersection(target_setlist[1]))
 
-        if len(Dom_B[int(f)].intersection(target_setlist[1])) > 0:
-            V[0][int(f)] = Dom_B[int(f)].intersection(target_setlist[1])
+        following = Dom_B.get(int(f), set()).intersection(target_setlist[1])
+        if len(following) > 0:
+            V[0][int(f)] = following
             tmp.append(f)
     # print( "\n\n")
     # print( "Kick constr", list(target_setlist[0]))
@@ -376,8 +377,9 @@ def constrainMM(markov_model, target, _path="output/"):
         # print( "Kick constr", list(target_setlist[step]))
         # for each value in V[step] keep continuations that match interlocking with step+1
         for t in target_setlist[step]:
-            if len(Dom_B[int(t)].intersection(target_setlist[step + 1])):
-                V[step][int(t)] = Dom_B[int(t)].intersection(target_setlist[step + 1])
+            following = Dom_B.get(int(t), set()).intersection(target_setlist[step + 1])
+            if len(following) > 0:
+                V[step][int(t)] = following
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
-- 
2.43.0


From 40a1957fe43de556617b2b5e2289dd00f221788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 66/82] fix: generate basslines and variations of one beat

---
 gsapi/bassmine.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index bc31b65..a098e94 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -353,11 +353,15 @@ def constrainMM(markov_model, target, _path="output/"):
     ## Look for possible continuations of filter_init in Dom_B, constrained to target_list[1]
     V.append(dict())
     tmp = []
+    init_keys = []
     for f in filter_init:
         #	print( "Possible intital continuations",f, Dom_B[int(f)])
         #	print( "Kick constrain", target_setlist[1])
         #	print( "Intersection", Dom_B[int(f)].intersection(target_setlist[1]))
 
+        if len(target) == 1:  # the only beat needs no continuation
+            init_keys.append(int(f))
+            continue
         following = Dom_B.get(int(f), set()).intersection(target_setlist[1])
         if len(following) > 0:
             V[0][int(f)] = following
@@ -390,11 +394,12 @@ def constrainMM(markov_model, target, _path="output/"):
     out_Model = {}
     init = []
     init_dict = dict()
-    for key in V[0]:
+    init_keys += list(V[0].keys())
+    for key in init_keys:
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = list(V[0].keys())
+    init_dict['initial']['pattern'] = init_keys
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
@@ -464,7 +469,9 @@ def variationMM(markov_model, target, _path="output/"):
 
     V.append(dict())
 
-    if target[1] >= 0:
+    if len(target) == 1:  # the only beat needs no continuation
+        pass
+    elif target[1] >= 0:
         V[0][target[0]] = {str(target[1])}
     else:
         V[0][target[0]] = Dom_B[target[0]]
-- 
2.43.0


From ae145608078a17041655b48ba2c0adcc7d461f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 67/82] fix: a style learned wrong probabilities from a list
 holding one pattern twice

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index fbc2652..abdb892 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -304,7 +304,7 @@ class PatternMarkov(object):
         """
         self.transitionTable = [{} for f in range(int(self.numSteps))]
 
-        self.binarizedPatterns = copy.deepcopy(self.originPatterns)
+        self.binarizedPatterns = [copy.deepcopy(p) for p in self.originPatterns]
         for p in self.binarizedPatterns:
             self.formatPattern(p)
             self.checkSilences(p)
-- 
2.43.0


From 26ae442d73b548c751b0d3c2cd360ec1c6c92de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 68/82] fix: generating a pattern reseeded the random numbers
 everyone else draws from

---
 gsapi/gsstyles.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index abdb892..be721ba 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -144,9 +144,8 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
-            if seed is not None:
-                random.seed(seed)
-            return self.patternList[int(random.random() * len(self.patternList))]
+            rng = random if seed is None else random.Random(seed)
+            return self.patternList[int(rng.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
 
@@ -389,7 +388,7 @@ class PatternMarkov(object):
         Args:
             seed: seed used for random initialisation of pattern (value of None generates a new one)
         """
-        random.seed(seed)
+        rng = random.Random(seed)
 
         def _generateEventAtStep(step, previousTags):
 
@@ -407,7 +406,7 @@ class PatternMarkov(object):
                 for x in d.values():
                     tSum += x
                     bins += [tSum]
-                r = random.random()
+                r = rng.random()
                 for i in range(1, len(bins)):
                     if bins[i - 1] <= r and bins[i] > r:
                         chosenIdx = i
@@ -415,7 +414,7 @@ class PatternMarkov(object):
 
             return list(d.keys())[chosenIdx]
 
-        startHypothesis = random.choice(list(self.transitionTable[self.order].keys()))
+        startHypothesis = rng.choice(list(self.transitionTable[self.order].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0


From a3928907504aa3f147afa533aa81bf5631225085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 69/82] fix: saving failed if someone else made the folder
 meanwhile

---
 gsapi/gsio.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 29db7b3..31da757 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -379,8 +379,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     track.make_ticks_rel()
 
     # Save the pattern to disk
-    if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+    __makeFolder(folderPath)
     name = name or myPattern.name
     name = name or "tests"
     if ".mid" not in name:
@@ -391,6 +390,19 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     return exportedPath
 
 
+def __makeFolder(folderPath):
+    """
+    Makes a folder, unless it is there (or is made by someone else just now).
+
+    """
+    if not os.path.exists(folderPath):
+        try:
+            os.makedirs(folderPath)
+        except OSError:
+            if not os.path.isdir(folderPath):
+                raise
+
+
 def fromJSONFile(filePath, conserveTuple=False):
     """
     Loads a pattern to the internal JSON Format.
@@ -436,8 +448,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
     """
 
     filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".json")
-    if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+    __makeFolder(folderPath)
 
     class TupleEncoder(json.JSONEncoder):
         """
@@ -492,8 +503,7 @@ def toPickleFile(myPattern, folderPath, nameSuffix=None):
 
     """
     filePath = os.path.join(folderPath, myPattern.name + (nameSuffix or "") + ".pickle")
-    if not os.path.exists(folderPath):
-        os.makedirs(folderPath)
+    __makeFolder(folderPath)
     with open(filePath, 'wb') as f:
         pickle.dump(myPattern, f)
     return os.path.abspath(filePath)
@@ -513,8 +523,7 @@ def write2pickle(name, data, path='../models/'):
          output folder path
 
     """
-    if not os.path.exists(path):
-        os.makedirs(path)
+    __makeFolder(path)
     with open(path + name + '.pickle', 'wb') as f:
         # Pickle the 'data' dictionary using the highest protocol available.
         pickle.dump(data, f, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 314c067a0c7b6a26fb4dba059d826e41550639df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 70/82] fix: a style that failed to load was left half changed

---
 gsapi/gsstyles.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index be721ba..96d45f4 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -165,11 +165,12 @@ class DatabaseStyle(BaseStyle):
         return res
 
     def setInternalState(self, internalStateDict):
-        self.patternList = []
+        patternList = []
         for e in internalStateDict["patternList"]:
             p = Pattern()
             p.fromJSONDict(e)
-            self.patternList += [p]
+            patternList += [p]
+        self.patternList = patternList
 
     def isBuilt(self):
         return self.patternList != []
@@ -515,11 +516,14 @@ class PatternMarkov(object):
         def _toTuple(tags):
             return tuple(_toTuple(t) for t in tags) if isinstance(tags, (list, tuple)) else tags
 
-        self.transitionTable = [{_toTuple(past): {_toTuple(event): p for event, p in events} for past, events in d}
-                                for d in state["transitionTable"]] or {}
-        self.order = state["order"]
-        self.numSteps = state["numSteps"]
-        self.loopDuration = state["loopDuration"]
+        # (nothing is changed unless everything is there)
+        transitionTable = [{_toTuple(past): {_toTuple(event): p for event, p in events} for past, events in d}
+                           for d in state["transitionTable"]] or {}
+        order, numSteps, loopDuration = state["order"], state["numSteps"], state["loopDuration"]
+        self.transitionTable = transitionTable
+        self.order = order
+        self.numSteps = numSteps
+        self.loopDuration = loopDuration
 
     def isBuilt(self):
         return self.transitionTable != {}
-- 
2.43.0


From 1eed0e49102bd011ee002274f0991a67c9fb32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 71/82] fix: the ASCII grid failed for patterns with tags that
 are not strings

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ae4d1d3..0f44b20 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1130,7 +1130,7 @@ class Pattern(object):
         def __areSilenceEvts(l):
             if len(l) > 0:
                 for e in l:
-                    if 'silence' not in e.tag:
+                    if not e.hasOneOfTags(['silence']):
                         return False
             return True
 
@@ -1165,7 +1165,7 @@ class Pattern(object):
 
                 isSilence = newSilenceState
                 # inited = True
-            out += "]: " + t
+            out += "]: %s" % (t,)
             print(out)
 
     def timeStretch(self, ratio):
-- 
2.43.0


From 50693e00708b62df1fd62546c3381105d915a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 72/82] fix: the ASCII grid showed a note starting at once as
 one held on

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 0f44b20..0644f3f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1140,7 +1140,7 @@ class Pattern(object):
             silenceASCII = '-'
             out = "["
             p = self.getPatternWithTags(t, makeCopy=True)
-            isSilence = __areSilenceEvts(p.activeEventsAtTime(0))
+            isSilence = True  # nothing sounds before the first step
             # inited = False
             lastActiveEvent = p.events[0]
             numSteps = int(self.duration * 1.0 / blockSize)
-- 
2.43.0


From 26822a227664d0db5c694ba4ab2eb61c00a36f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 73/82] fix: printed MIDI patterns and unknown meta events
 could not be read back

---
 gsapi/midiio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 39fb2a8..3aff69e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -211,7 +211,7 @@ class Pattern(list):
         super(Pattern, self).__init__(tracks)
 
     def __repr__(self):
-        return "midi.Pattern(format=%r, resolution=%r, tracks=\\\n%s)" % \
+        return "midi.Pattern(frmt=%r, resolution=%r, tracks=\\\n%s)" % \
                (self.frmt, self.resolution, pformat(list(self)))
 
     def make_ticks_abs(self):
@@ -619,6 +619,9 @@ class UnknownMetaEvent(MetaEvent):
         super(MetaEvent, self).__init__(**kw)
         self.metacommand = kw['metacommand']
 
+    def __repr__(self):
+        return self.__baserepr__(['metacommand'])
+
     def copy(self, **kw):
         _kw = {'metacommand': self.metacommand, 'tick': self.tick, 'data': self.data}
         _kw.update(kw)
-- 
2.43.0


From c0ea96752a3eda6e571829b0793916b8b072d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 74/82] fix: changing the copy of a MIDI event changed the
 event

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 3aff69e..6ea292e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -363,7 +363,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
@@ -623,7 +623,7 @@ class UnknownMetaEvent(MetaEvent):
         return self.__baserepr__(['metacommand'])
 
     def copy(self, **kw):
-        _kw = {'metacommand': self.metacommand, 'tick': self.tick, 'data': self.data}
+        _kw = {'metacommand': self.metacommand, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
-- 
2.43.0


From 9d744dc87069c867f9949cd52d89cd2618f9a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 75/82] fix: filling silences per tag doubled events whose
 tuple tag holds another tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 0644f3f..3b9b61a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -497,7 +497,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From 09112b459e849e5fdcc755b486671ad89034f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 76/82] fix: AgnosticDensity compares a given pattern with the
 last one given

It compared it with its own copy, stretched to the step grid: another
pattern that equals that copy was not taken, and the current one given
again lost the densities set so far.
---
 gsapi/gstransformers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 5e03644..ecf64e7 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -75,6 +75,7 @@ class AgnosticDensity(BaseTransformer):
         self.normalizedDensities = {}
         self.targetDensities = {}
         self.mode = mode
+        self.inputPattern = None
         self.originPattern = None
         self.currentPattern = None
         self.originDuration = 0
@@ -90,7 +91,7 @@ class AgnosticDensity(BaseTransformer):
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and pattern != self.inputPattern:
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
@@ -195,6 +196,7 @@ class AgnosticDensity(BaseTransformer):
             self.normalizedDensities[t] = 1
 
     def buildDensityMap(self, pattern):
+        self.inputPattern = pattern.copy()
         self.originPattern = pattern.copy()
         self.originDuration = pattern.duration
         self.originPattern.timeStretch(self.numSteps * 1.0 / self.originPattern.duration)
-- 
2.43.0


From 22821f295f35fce9cd00d453a74dfd1a14e11e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 77/82] fix: splitting an event into very many slices does not
 recurse

---
 gsapi/gspattern.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3b9b61a..e0dc577 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1086,24 +1086,26 @@ class Pattern(object):
             res.name = (patternToSlice.name or "") + "_" + str(p)
             return res
 
-        def _handleEvent(e, patterns, makeCopy, p=None):
-            if p is None:
-                p = int(math.floor(e.startTime * 1.0 / desiredLength))
-            numPattern = str(p)
-            if numPattern not in patterns:
-                patterns[numPattern] = _emptySlice(p)
-            newEv = e if not makeCopy else e.copy()
-
-            if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-                remainingEvent = e.copy()
-                newOnset = (p + 1) * desiredLength
-                remainingEvent.duration = remainingEvent.endTime() - newOnset
-                remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy, p + 1)
-                newEv.duration = (p + 1) * desiredLength - e.startTime
-
-            newEv.startTime -= p * desiredLength
-            patterns[numPattern].events += [newEv]
+        def _handleEvent(e, patterns, makeCopy):
+            p = int(math.floor(e.startTime * 1.0 / desiredLength))
+            while e is not None:
+                numPattern = str(p)
+                if numPattern not in patterns:
+                    patterns[numPattern] = _emptySlice(p)
+                newEv = e if not makeCopy else e.copy()
+                remainingEvent = None
+
+                if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
+                    remainingEvent = e.copy()
+                    newOnset = (p + 1) * desiredLength
+                    remainingEvent.duration = remainingEvent.endTime() - newOnset
+                    remainingEvent.startTime = newOnset
+                    newEv.duration = (p + 1) * desiredLength - e.startTime
+
+                newEv.startTime -= p * desiredLength
+                patterns[numPattern].events += [newEv]
+                e = remainingEvent
+                p += 1
 
         patterns = {}
 
-- 
2.43.0


From 5fb40163fc63eab673c6a6fdea5868bad34d473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 78/82] fix: sampling from a list of probabilities never gave
 its last index

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index a098e94..4371c56 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -51,7 +51,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From ef487af9e718d9974fb3518bea8075747563f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 79/82] fix: patterns made from a pattern do not share the list
 of its time signature

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index e0dc577..9708406 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -416,7 +416,7 @@ class Pattern(object):
         p = Pattern()
         p.duration = self.duration
         p.bpm = self.bpm
-        p.timeSignature = self.timeSignature
+        p.timeSignature = copy.copy(self.timeSignature)
         p.key = self.key
         p.startTime = self.startTime
         p.resolution = self.resolution
-- 
2.43.0


From ac030eb50576eac5bee594471a98a089bb841a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 80/82] fix: the chord maj#11 was spelled with a minor seventh

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index fd8df84..281adc1 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -47,7 +47,7 @@ chordIntervals = {"0":           [],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
-- 
2.43.0


From 43d2f7d54a409fba4f01a3cc4f376396cab889ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 81/82] fix: a single track asked for by name or index alone is
 that track

---
 gsapi/gsio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 31da757..2dfa515 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -135,6 +135,10 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     myPattern = gspattern.Pattern()
     myPattern.name = os.path.basename(midiPath)
 
+    # one track can be asked for by its name or index alone
+    if type(tracksToGet) is int or (tracksToGet and isinstance(tracksToGet, (str, type(u'')))):
+        tracksToGet = [tracksToGet]
+
     # boolean to avoid useless string creation
     extremeLog = gsioLog.getEffectiveLevel() <= logging.DEBUG
 
-- 
2.43.0


From 3043dca6521332345832242866fd7187b2327211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:25 +0000
Subject: [PATCH 82/82] fix: loading JSON into a pattern replaces the events it
 held

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 9708406..675d943 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -535,6 +535,7 @@ class Pattern(object):
             self.originPattern = findOriginPatternInParent(
                     json['originPattern'])
 
+        self.events = []
         hasIndexedTags = 'eventTags' in json.keys()
         if hasIndexedTags:
             tags = json['eventTags']
-- 
2.43.0


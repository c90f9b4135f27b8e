From 092b7e830d030e4a1aef507c869a34e2f8116294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 01/17] fix: stop at end of data when parsing PLT/PLM packet
 lengths

A segment whose last byte has its continuation bit set made the inner loop run
forever, because reading past the end yields a value with that bit set.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..3fe5da4 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,7 +267,7 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
-- 
2.43.0


From 002c433962c51b5c51576da2a31ac32ac08fddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 02/17] fix: keep all bits of packet lengths that take three or
 more bytes

Only the last 7 bits of the value gathered so far were kept, so a length coded
in three or more bytes was reported wrongly.
---
 jpylyzer/boxvalidator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3fe5da4..8b2e374 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -272,11 +272,11 @@ class BoxValidator:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
+            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1]) & 0x7F
             for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+                iplt_i = iplt_i << 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From 89a7dba0123af660371406fd185de5e9cc98f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 03/17] fix: bits per component field is variable only if it
 equals 255

The test accepted any value from 1 to 255, so bPCIsValid never failed for a
bit depth over 38.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 8b2e374..4ef644e 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -535,7 +535,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From 11ef0b109424a6787e0b10b5a9665f0240d78b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 04/17] fix: cAssocIsValid must look at the channel association

It tested the channel type, so a box that ends before the association field
of a channel passed.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 4ef644e..c23340f 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1099,7 +1099,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 8ac254d7a0b0fb2c16e7ce30d5708127649cb4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 05/17] fix: read QCC step sizes from the byte after sqcc

The offset was not moved past the quantization style byte, so all step sizes
were read one byte too early.
---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index c23340f..0c562ff 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2522,6 +2522,7 @@ class BoxValidator:
 
         # Quantization style for this component
         sqcc = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
+        offset += 1
 
         # sqcc contains 2 quantization parameters: style + no of guard bits
 
-- 
2.43.0


From 397cbd9cc0dbd54d262bb8f0c46533ccb6b6644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 06/17] fix: read all entries of PRF and CPF marker segments

The offset was never moved, so the first entry was read over and over, and the
check on the last entry was never done because its index was off by one.
---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0c562ff..21f9565 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2870,7 +2870,8 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            offset += 2
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2898,7 +2899,8 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            offset += 2
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From 1eabc5ce3e4eb80a9c59a1af81a0e5f91a5a061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 07/17] fix: define capability for every rsiz value

Profile 8 overwrote rsiz and left capability unset, and so did a first-level
profile with a main level over 7: both ended in an internal error.
---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 21f9565..a14e52c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1807,6 +1807,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1829,7 +1831,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From f7cb0f05603795cbf3a7eb2042a69083466fa298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 08/17] fix: no division by zero on zero resolution
 denominators

A zero denominator is reported by its own test; the derived resolution is now
-9999, as for a compression ratio that cannot be calculated, instead of ending
validation with an internal error.
---
 jpylyzer/boxvalidator.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a14e52c..59fe035 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1213,19 +1213,23 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        if vRcD != 0:
+            vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+            vRescInPixelsPerInch = vRescInPixelsPerMeter * 25.4e-3
+        else:
+            vRescInPixelsPerMeter = vRescInPixelsPerInch = -9999
+        if hRcD != 0:
+            hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+            hRescInPixelsPerInch = hRescInPixelsPerMeter * 25.4e-3
+        else:
+            hRescInPixelsPerMeter = hRescInPixelsPerInch = -9999
+
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
-
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
-
-        vRescInPixelsPerInch = vRescInPixelsPerMeter * 25.4e-3
         self.addCharacteristic(
             "vRescInPixelsPerInch", round(vRescInPixelsPerInch, 2))
-
-        hRescInPixelsPerInch = hRescInPixelsPerMeter * 25.4e-3
         self.addCharacteristic(
             "hRescInPixelsPerInch", round(hRescInPixelsPerInch, 2))
 
@@ -1272,19 +1276,23 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        if vRdD != 0:
+            vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+            vResdInPixelsPerInch = vResdInPixelsPerMeter * 25.4e-3
+        else:
+            vResdInPixelsPerMeter = vResdInPixelsPerInch = -9999
+        if hRdD != 0:
+            hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+            hResdInPixelsPerInch = hResdInPixelsPerMeter * 25.4e-3
+        else:
+            hResdInPixelsPerMeter = hResdInPixelsPerInch = -9999
+
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
-
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
-
-        vResdInPixelsPerInch = vResdInPixelsPerMeter * 25.4e-3
         self.addCharacteristic(
             "vResdInPixelsPerInch", round(vResdInPixelsPerInch, 2))
-
-        hResdInPixelsPerInch = hResdInPixelsPerMeter * 25.4e-3
         self.addCharacteristic(
             "hResdInPixelsPerInch", round(hResdInPixelsPerInch, 2))
 
-- 
2.43.0


From e57625b54afc162f55ccff69d084d4797de86c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 09/17] fix: UUID box and UUID list box that end too early

An incomplete identifier raised ValueError, which ended validation of the whole
file; boxLengthIsValid already reports these boxes.
---
 jpylyzer/boxvalidator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 59fe035..bf5bf12 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3323,6 +3323,10 @@ class BoxValidator:
         # Check box size, which must be greater than 16 bytes
         self.testFor("boxLengthIsValid", boxLength > 16)
 
+        if boxLength < 16:
+            # No complete UUID, nothing else to look at
+            return
+
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
         boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
@@ -3423,6 +3427,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if offset + 16 > len(self.boxContents):
+                # No complete UUID left
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From 59f286b62dea216dc51d5678b77ea01cab6fd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 10/17] fix: tile-part loop must move forward

A tile-part length that cannot be read sent the loop back to an earlier
position, so it could go round forever.
---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bf5bf12..dcac870 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1681,12 +1681,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. Same if psot could not be read, as offsetNext is
+                        # then smaller than offset
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From c58ae354a748732891b4923759da2d05dce4dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 11/17] fix: use yOsiz for the image height in codestream
 compression ratio

It used xOsiz for both directions.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index dcac870..ca18925 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1738,7 +1738,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From d87bf512ea7a84fca904321d3ca35195a758b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 12/17] fix: file date out of range must not end the run

The fallback passed a string where a number is needed, and only expected one of
the errors the conversion can raise.
---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..c4b714f 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,10 +364,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From a43efc1fe54529017c7611eecb9e51c44f4da165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 13/17] fix: file that disappears or is a dangling link must
 not end the run

Its size was read outside the per-file error handling, so the other files were
not analysed. It is now reported as a file that could not be opened.
---
 jpylyzer/jpylyzer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c4b714f..a228a0d 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -359,8 +359,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
     fileInfo.appendChildTagWithText("filePath", filePathCleaned)
-    fileInfo.appendChildTagWithText(
-        "fileSizeInBytes", str(os.path.getsize(path)))
+    try:
+        fileSize = os.path.getsize(path)
+    except OSError:
+        # Cannot be accessed (e.g. dangling link): reported below as I/O error
+        fileSize = 0
+    fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
@@ -423,13 +427,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     except Exception as ex:
         fileIsValid = False
         success = False
-        exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if isinstance(ex, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif isinstance(ex, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif isinstance(ex, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From e82781e0d76ab9187e619338525fdd4948ab7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 14/17] fix: MIX generation inside the per-file error handling

An error in it ended the run, so the remaining files were not analysed.
---
 jpylyzer/jpylyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index a228a0d..594a933 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -424,6 +424,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         characteristics.makeHumanReadable(remapTable)
         warnings.makeHumanReadable()
 
+        if mixFlag != 0 and fileIsValid:
+            mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
+
     except Exception as ex:
         fileIsValid = False
         success = False
@@ -445,9 +448,6 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
-        mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
-
     # Add status info
     statusInfo.appendChildTagWithText("success", str(success))
     if not success:
-- 
2.43.0


From 9f6617f3834f1682d46b276245f84138023ed607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 15/17] fix: MIX for images without enumerated colour space or
 RDF description

Both are legal (JPH allows a parameterized colour space or no colour box), but
ended in an AttributeError.
---
 jpylyzer/mix.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..bc88a22 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,13 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if enumCS is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', enumCS.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
@@ -159,7 +161,10 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        description = prop.find(prefixPath)
+        if description is None:
+            return None
+        value = description.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From ce447bebc8304ee4c1a889aa2798ee886be19648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 16/17] fix: remove characters that XML does not allow from
 file names

A control character in a file name made the output ill-formed, which ended the
run when pretty-printing it.
---
 jpylyzer/jpylyzer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 594a933..1b74503 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import re
 import datetime
 import glob
 import argparse
@@ -353,8 +354,8 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    fileNameCleaned = stripNonXMLCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = stripNonXMLCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -515,6 +516,12 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def stripNonXMLCharacters(ustring):
+    """Remove characters that are not allowed in XML 1.0 from a Unicode string."""
+    return re.sub(
+        '[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]', '', ustring)
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From 3b5966a3032934a11fec6f9814c3b447986a8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 17/17] fix: box type cut off by end of data is not a marker
 code

Two bytes left of a box type could match a codestream marker, and its validator
then ended in an internal error. It is now an unknown box.
---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index ca18925..41a0218 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -140,8 +140,9 @@ class BoxValidator:
         boxLengthValue = bc.bytesToUInt(
             self.boxContents[byteStart:byteStart + 4])
 
-        # Box type
-        boxType = self.boxContents[byteStart + 4:byteStart + 8]
+        # Box type (padded if cut off by end of data, so that what is left of it
+        # cannot match one of the 2 byte codestream marker codes)
+        boxType = self.boxContents[byteStart + 4:byteStart + 8].ljust(4, b'\x00')
 
         # Start byte of box contents
         contentsStartOffset = 8
-- 
2.43.0


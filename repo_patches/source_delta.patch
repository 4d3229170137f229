From 8a6195e8b0962becf0612609a68fd63e6acb9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 01/53] fix: parse lines longer than 64KB and report read
 errors

---
 yaml/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..5f184ed 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -25,6 +25,9 @@ import (
 	"github.com/buildkite/yaml"
 )
 
+// maximum length of a single line in the configuration.
+const maxLineLength = int(^uint(0) >> 1)
+
 var errorMissingKind = errors.New("yaml: missing kind attribute")
 
 // Parse parses the configuration from io.Reader r.
@@ -103,6 +106,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	var resource *RawResource
 
 	scanner := bufio.NewScanner(r)
+	// the default scanner buffer limits the line length
+	// to 64KB. A yaml line has no such limit.
+	scanner.Buffer(nil, maxLineLength)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if isSeparator(line) {
@@ -130,6 +136,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From 5426421139ec270eefe6d94a055d9b3cc1c5f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 02/53] fix: format registry resources instead of dropping them

---
 yaml/pretty/pretty.go   |  2 ++
 yaml/pretty/registry.go | 51 +++++++++++++++++++++++++++++++++++++++++
 yaml/pretty/secret.go   |  8 ++++++-
 3 files changed, 60 insertions(+), 1 deletion(-)
 create mode 100644 yaml/pretty/registry.go

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index 1080c46..ff2390f 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -29,6 +29,8 @@ func Print(w io.Writer, v *yaml.Manifest) {
 			printCron(state, t)
 		case *yaml.Secret:
 			printSecret(state, t)
+		case *yaml.Registry:
+			printRegistry(state, t)
 		case *yaml.Signature:
 			printSignature(state, t)
 		case *yaml.Pipeline:
diff --git a/yaml/pretty/registry.go b/yaml/pretty/registry.go
new file mode 100644
index 0000000..12ac03d
--- /dev/null
+++ b/yaml/pretty/registry.go
@@ -0,0 +1,51 @@
+// Copyright 2019 Drone IO, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package pretty
+
+import (
+	"sort"
+
+	"github.com/drone/drone-yaml/yaml"
+)
+
+// helper function to pretty prints the registry resource.
+func printRegistry(w writer, v *yaml.Registry) {
+	w.WriteString("---")
+	w.WriteTagValue("version", v.Version)
+	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
+	if len(v.Data) > 0 {
+		printRegistryData(w, v.Data)
+	}
+	w.WriteByte('\n')
+	w.WriteByte('\n')
+}
+
+// helper function prints the registry credentials, indexed
+// by registry hostname.
+func printRegistryData(w writer, d map[string]string) {
+	var keys []string
+	for k := range d {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	w.WriteTag("data")
+	w.IndentIncrease()
+	for _, k := range keys {
+		printBlock(w, k, d[k])
+	}
+	w.IndentDecrease()
+}
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 5a6b63f..194612c 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -75,7 +75,13 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 }
 
 func printData(w writer, d string) {
-	w.WriteTag("data")
+	printBlock(w, "data", d)
+}
+
+// helper function prints the encrypted data as a folded
+// block. The encoded data is not sensitive to whitespace.
+func printBlock(w writer, k, d string) {
+	w.WriteTag(k)
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-- 
2.43.0


From cdfced6a3b3b1494e35a9a82419e77f4a0d96e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 03/53] fix: do not panic on null list and map entries

---
 yaml/compiler/compiler.go | 12 ++++++++++++
 yaml/compiler/convert.go  |  3 +++
 yaml/compiler/step.go     |  3 +++
 yaml/linter/linter.go     | 15 +++++++++++++++
 yaml/pretty/container.go  | 24 ++++++++++++++++++++++--
 yaml/pretty/pipeline.go   |  3 +++
 6 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..91f81a1 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -73,6 +73,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	isSerial := true
 	for _, step := range from.Steps {
+		if step == nil {
+			continue
+		}
 		if len(step.DependsOn) != 0 {
 			isSerial = false
 			break
@@ -115,6 +118,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// file, convert to a runtime volume and append to the
 	// specification.
 	for _, from := range from.Volumes {
+		if from == nil {
+			continue
+		}
 		to := &engine.Volume{
 			Metadata: engine.Metadata{
 				UID:       rand.String(),
@@ -157,6 +163,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, service := range from.Services {
+		if service == nil {
+			continue
+		}
 		step := createStep(spec, service)
 		// note that all services are automatically
 		// set to run in detached mode.
@@ -191,6 +200,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, container := range from.Steps {
+		if container == nil {
+			continue
+		}
 		var step *engine.Step
 		switch {
 		case container.Build != nil:
diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..6d875e2 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -28,6 +28,9 @@ func toIgnoreErr(from *yaml.Container) bool {
 func toPorts(from *yaml.Container) []*engine.Port {
 	var ports []*engine.Port
 	for _, port := range from.Ports {
+		if port == nil {
+			continue
+		}
 		ports = append(ports, toPort(port))
 	}
 	return ports
diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..5502f97 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -71,6 +71,9 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the volumes to the container def.
 	for _, vol := range src.Volumes {
+		if vol == nil {
+			continue
+		}
 		// the user should never be able to directly
 		// mount the docker socket. This should be
 		// restricted by the linter, but we place this
diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..a1b66ca 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -79,6 +79,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			continue
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +99,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			continue
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -159,6 +165,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			continue
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -169,6 +178,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			continue
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -186,6 +198,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			continue
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..f011352 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -103,6 +103,9 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -124,7 +127,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			printNull(w, k)
+		} else if v.Secret == "" {
 			w.WriteTagValue(k, v.Value)
 		} else {
 			w.WriteTag(k)
@@ -140,6 +145,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -193,7 +201,9 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			printNull(w, k)
+		} else if v.Secret == "" {
 			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
 			w.ExcludeZero()
@@ -211,6 +221,9 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -220,6 +233,13 @@ func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	}
 }
 
+// helper function pretty prints a key with a null value.
+func printNull(w writer, k string) {
+	w.WriteTag(k)
+	w.WriteByte(' ')
+	writeValue(w, nil)
+}
+
 // helper function returns true if the Build block should
 // be printed in short form.
 func shortBuild(b *yaml.Build) bool {
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..9495b6e 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -207,6 +207,9 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
-- 
2.43.0


From 7c3273589be5bedfabfef5625fa55676a3031d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 04/53] fix: format mapping values that have non-string keys

---
 yaml/pretty/writer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..258ac5f 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -304,19 +304,26 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte('}')
 		return
 	}
-	var keys []string
+	// note that the keys are not necessarily strings. Keys
+	// that have the same text are further sorted by type.
+	var keys []interface{}
 	for k := range v {
-		s := fmt.Sprint(k)
-		keys = append(keys, s)
+		keys = append(keys, k)
 	}
-	sort.Strings(keys)
+	sort.Slice(keys, func(i, j int) bool {
+		a, b := fmt.Sprint(keys[i]), fmt.Sprint(keys[j])
+		if a != b {
+			return a < b
+		}
+		return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+	})
 	for i, k := range keys {
 		v := v[k]
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeValue(w, k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-- 
2.43.0


From 1ed8424dddb32c7a46a72e8fbca13833819cc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 05/53] fix: do not drop empty environment variables and
 settings

---
 yaml/env.go              | 5 +----
 yaml/param.go            | 5 +----
 yaml/pretty/container.go | 2 ++
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/yaml/env.go b/yaml/env.go
index 9b8e002..c397786 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,8 +50,5 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
-	if v.Value != "" {
-		return v.Value, nil
-	}
-	return nil, nil
+	return v.Value, nil
 }
diff --git a/yaml/param.go b/yaml/param.go
index 33cfbdb..9167d6a 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -51,8 +51,5 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = p.Secret
 		return m, nil
 	}
-	if p.Value != "" {
-		return p.Value, nil
-	}
-	return nil, nil
+	return p.Value, nil
 }
diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index f011352..cfbcdc1 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -130,7 +130,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 		if v == nil {
 			printNull(w, k)
 		} else if v.Secret == "" {
+			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
+			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
-- 
2.43.0


From 1553eaef26be1c7398e02eb349824bd2887080a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 06/53] fix: format byte sizes without loss of precision

---
 yaml/unit.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yaml/unit.go b/yaml/unit.go
index 16fb9d5..3da785f 100644
--- a/yaml/unit.go
+++ b/yaml/unit.go
@@ -15,6 +15,8 @@
 package yaml
 
 import (
+	"strconv"
+
 	"github.com/docker/go-units"
 )
 
@@ -46,6 +48,14 @@ func (b *BytesSize) UnmarshalYAML(unmarshal func(interface{}) error) error {
 // String returns a human-readable size in bytes,
 // kibibytes, mebibytes, gibibytes, or tebibytes
 // (eg. "44kiB", "17MiB").
+//
+// The human-readable size is rounded to 4 significant
+// digits. The size in bytes is returned if the
+// human-readable size is not exact.
 func (b BytesSize) String() string {
-	return units.BytesSize(float64(b))
+	s := units.BytesSize(float64(b))
+	if v, err := units.RAMInBytes(s); err != nil || v != int64(b) {
+		return strconv.FormatInt(int64(b), 10)
+	}
+	return s
 }
-- 
2.43.0


From 49e17e4cc06b2be14fb7b723d19d4d1ea34ea0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 07/53] fix: format the cron type and the secret name exactly
 once

---
 yaml/pretty/cron.go   | 1 +
 yaml/pretty/secret.go | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/cron.go b/yaml/pretty/cron.go
index 6a835d2..45e228d 100644
--- a/yaml/pretty/cron.go
+++ b/yaml/pretty/cron.go
@@ -21,6 +21,7 @@ func printCron(w writer, v *yaml.Cron) {
 	w.WriteString("---")
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
 	w.WriteTagValue("name", v.Name)
 	printSpec(w, v)
 	w.WriteByte('\n')
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 194612c..e7e71bc 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -30,12 +30,11 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("kind", v.Kind)
 	w.WriteTagValue("type", v.Type)
 
+	w.WriteTagValue("name", v.Name)
 	if len(v.Data) > 0 {
-		w.WriteTagValue("name", v.Name)
 		printData(w, v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
-		w.WriteTagValue("name", v.Name)
 		w.WriteByte('\n')
 		printGet(w, v.Get)
 	}
-- 
2.43.0


From 48b54ab3dff51e5ba405f9a521328f86e80ee768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 08/53] fix: quote strings the yaml parser would otherwise read
 as another value

---
 yaml/pretty/container.go |  6 ++++++
 yaml/pretty/util.go      | 24 ++++++++++++++++++++++++
 yaml/pretty/writer.go    | 36 +++++++++++++++++++++++++++++-------
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index cfbcdc1..b3ed816 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -206,6 +206,12 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 		if v == nil {
 			printNull(w, k)
 		} else if v.Secret == "" {
+			if s, ok := v.Value.(string); ok {
+				w.WriteTag(k)
+				w.WriteByte(' ')
+				writeOpaque(w, s)
+				continue
+			}
 			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
 			w.ExcludeZero()
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..98b643e 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -18,6 +18,8 @@ import (
 	"strings"
 
 	"github.com/drone/drone-yaml/yaml"
+
+	goyaml "github.com/buildkite/yaml"
 )
 
 func isPrimative(v interface{}) bool {
@@ -131,6 +133,28 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the unquoted string can
+// be read back, unchanged, by a yaml parser.
+func isPlain(s string) bool {
+	// the merge key indicator has a special meaning
+	// when used as a mapping key.
+	if s == "<<" {
+		return false
+	}
+	out := map[string]string{}
+	err := goyaml.Unmarshal([]byte("k: "+s+"\n"), &out)
+	return err == nil && len(out) == 1 && out["k"] == s
+}
+
+// helper function returns true if the unquoted string is
+// read back by a yaml parser as a string, as opposed to a
+// boolean, number or null.
+func isPlainString(s string) bool {
+	out := map[string]interface{}{}
+	err := goyaml.Unmarshal([]byte("k: "+s+"\n"), &out)
+	return err == nil && len(out) == 1 && out["k"] == s
+}
+
 func chunk(s string, chunkSize int) []string {
 	if len(s) == 0 {
 		return []string{s}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 258ac5f..5a8c190 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -226,6 +226,28 @@ func writeEncode(w writer, v string) {
 	}
 }
 
+// writeString writes the string and quotes the string if
+// the yaml parser would otherwise read a different value.
+func writeString(w writer, v string) {
+	if !isQuoted(v) && !isPlain(v) {
+		fmt.Fprintf(w, "%q", v)
+	} else {
+		writeEncode(w, v)
+	}
+}
+
+// writeOpaque writes a value that has no predefined type,
+// in which case a string that looks like a boolean, number
+// or null must be quoted to preserve its type.
+func writeOpaque(w writer, v interface{}) {
+	s, ok := v.(string)
+	if ok && !isQuoted(s) && !isPlainString(s) {
+		fmt.Fprintf(w, "%q", s)
+	} else {
+		writeValue(w, v)
+	}
+}
+
 func writeValue(w writer, v interface{}) {
 	if v == nil {
 		w.WriteByte('~')
@@ -258,7 +280,7 @@ func writeScalar(w writer, v interface{}) {
 	case float64:
 		writeFloat(w, v)
 	case string:
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
 
@@ -276,7 +298,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeOpaque(w, v)
 		w.IndentDecrease()
 	}
 }
@@ -294,7 +316,7 @@ func writeSequenceStr(w writer, v []string) {
 		}
 		w.WriteByte('-')
 		w.WriteByte(' ')
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
 
@@ -323,11 +345,11 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeValue(w, k)
+		writeOpaque(w, k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-			writeValue(w, v)
+			writeOpaque(w, v)
 		} else {
 			slice := isSlice(v)
 			if !slice {
@@ -360,9 +382,9 @@ func writeMappingStr(w writer, v map[string]string) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeString(w, k)
 		w.WriteByte(':')
 		w.WriteByte(' ')
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
-- 
2.43.0


From be5d3ca9716f2f46c3ca2666ec0867bc62938ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 09/53] fix: format non-finite and unsigned 64-bit numbers

---
 yaml/pretty/util.go   |  2 +-
 yaml/pretty/writer.go | 26 ++++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 98b643e..5199ff6 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -24,7 +24,7 @@ import (
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, int, int64, uint64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 5a8c190..988d3f4 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -196,9 +197,18 @@ func writeBool(w writer, v bool) {
 }
 
 func writeFloat(w writer, v float64) {
-	w.WriteString(
-		strconv.FormatFloat(v, 'g', -1, 64),
-	)
+	switch {
+	case math.IsNaN(v):
+		w.WriteString(".nan")
+	case math.IsInf(v, 1):
+		w.WriteString(".inf")
+	case math.IsInf(v, -1):
+		w.WriteString("-.inf")
+	default:
+		w.WriteString(
+			strconv.FormatFloat(v, 'g', -1, 64),
+		)
+	}
 }
 
 func writeInt(w writer, v int) {
@@ -213,6 +223,12 @@ func writeInt64(w writer, v int64) {
 	)
 }
 
+func writeUint64(w writer, v uint64) {
+	w.WriteString(
+		strconv.FormatUint(v, 10),
+	)
+}
+
 func writeEncode(w writer, v string) {
 	if len(v) == 0 {
 		w.WriteByte('"')
@@ -254,7 +270,7 @@ func writeValue(w writer, v interface{}) {
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, uint64, float64, string:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -277,6 +293,8 @@ func writeScalar(w writer, v interface{}) {
 		writeInt(w, v)
 	case int64:
 		writeInt64(w, v)
+	case uint64:
+		writeUint64(w, v)
 	case float64:
 		writeFloat(w, v)
 	case string:
-- 
2.43.0


From 0b286aa05e07f1f9b52a1b918d52e4e7195dc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 10/53] fix: save the converted yaml when requested

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From 27ad23ac64e4d76976e4022fb7e7ebe63b55a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 11/53] fix: convert the gitlab allow_failure attribute

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From c9bce3166007df9048e4074232e683a372647b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 12/53] fix: convert gitlab jobs in a deterministic order and
 ignore empty entries

---
 yaml/converter/gitlab/convert.go | 55 ++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..03c4e6e 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,8 @@ package gitlab
 
 import (
 	"bytes"
+	"fmt"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -23,14 +25,21 @@ func Convert(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	// jobs are converted in the order they are defined
+	// in the configuration file.
+	jobs, err := jobNames(b, config)
+	if err != nil {
+		return nil, err
+	}
+
 	manifest := &droneyaml.Manifest{}
 
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range jobs {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +50,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range jobs {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
@@ -76,6 +86,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
@@ -99,6 +112,42 @@ func Convert(b []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// helper function returns the names of the jobs in the
+// order they are defined in the configuration file. Jobs
+// that are defined by merge keys are returned last. Empty
+// jobs are ignored.
+func jobNames(b []byte, config *Config) ([]string, error) {
+	slice := yaml.MapSlice{}
+	if err := yaml.Unmarshal(b, &slice); err != nil {
+		return nil, err
+	}
+	var names []string
+	seen := map[string]struct{}{}
+	add := func(name string) {
+		job, ok := config.Jobs[name]
+		if !ok || job == nil {
+			return
+		}
+		if _, ok := seen[name]; ok {
+			return
+		}
+		seen[name] = struct{}{}
+		names = append(names, name)
+	}
+	for _, item := range slice {
+		add(fmt.Sprint(item.Key))
+	}
+	var rest []string
+	for name := range config.Jobs {
+		rest = append(rest, name)
+	}
+	sort.Strings(rest)
+	for _, name := range rest {
+		add(name)
+	}
+	return names, nil
+}
+
 func serviceSlug(s string) string {
 	s = image.Trim(s)
 	s = strings.Replace(s, "/", "__", -1)
-- 
2.43.0


From e745ef53e97ea2fe31d2321bda4d8dbf54df397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 13/53] fix: convert bitbucket pipelines in a deterministic
 order and ignore empty entries

---
 yaml/converter/bitbucket/config.go  | 42 +++++++++++++++++++++++------
 yaml/converter/bitbucket/convert.go | 10 +++++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..947383b 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -75,22 +76,44 @@ type (
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
 	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
-		if ok, _ := path.Match(pattern, tag); ok {
-			return pipeline
-		}
+	if pipeline, ok := match(c.Pipelines.Tags, tag); ok {
+		return pipeline
 	}
 	// match pipeline by branch name
 	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
-		if ok, _ := path.Match(pattern, branch); ok {
-			return pipeline
-		}
+	if pipeline, ok := match(c.Pipelines.Branches, branch); ok {
+		return pipeline
 	}
 	// use default
 	return c.Pipelines.Default
 }
 
+// helper function returns the pipeline stage with the pattern that
+// best matches the name. The exact name is preferred, followed by
+// the longest pattern.
+func match(stages map[string]Stage, name string) (Stage, bool) {
+	if pipeline, ok := stages[name]; ok {
+		return pipeline, true
+	}
+	var patterns []string
+	for pattern := range stages {
+		patterns = append(patterns, pattern)
+	}
+	sort.Slice(patterns, func(i, j int) bool {
+		a, b := patterns[i], patterns[j]
+		if len(a) != len(b) {
+			return len(a) > len(b)
+		}
+		return a < b
+	})
+	for _, pattern := range patterns {
+		if ok, _ := path.Match(pattern, name); ok {
+			return stages[pattern], true
+		}
+	}
+	return Stage{}, false
+}
+
 // UnmarshalYAML implements custom parsing for the stage section of the yaml
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
@@ -102,6 +125,9 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 	for _, step := range in {
+		if step.Step == nil {
+			continue
+		}
 		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..f05a37e 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,7 +60,16 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
+	var names []string
 	for name, from := range config.Definitions.Services {
+		if from != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		from := config.Definitions.Services[name]
 		to := toContainer(from)
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
-- 
2.43.0


From d6a0693f90866ab231e4bd31b67e7b13f5c2b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 14/53] fix: expand the legacy matrix in a deterministic order
 and ignore empty tags

---
 yaml/converter/legacy/internal/config.go | 9 ++++++++-
 yaml/converter/legacy/matrix/matrix.go   | 9 +++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..3742d2d 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -235,7 +235,14 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			transformed := string(marshaled)
 
-			for key, value := range environ {
+			var keys []string
+			for key := range environ {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+
+			for _, key := range keys {
+				value := environ[key]
 				if strings.Contains(value, "\n") {
 					value = fmt.Sprintf("%q", value)
 				}
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..c925bae 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -63,6 +64,10 @@ func calc(matrix Matrix) []Axis {
 	var perm int
 	var tags []string
 	for k, v := range matrix {
+		// ignore tags that have no values.
+		if len(v) == 0 {
+			continue
+		}
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
@@ -70,6 +75,10 @@ func calc(matrix Matrix) []Axis {
 		tags = append(tags, k)
 	}
 
+	// sort the tags so that the order of the permutations
+	// is deterministic.
+	sort.Strings(tags)
+
 	// structure to hold the transformed result set
 	axisList := []Axis{}
 
-- 
2.43.0


From 3caf913d06e48108f26b3a898d48ca90c2f41ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 15/53] fix: legacy matrix constraints must match every key

---
 yaml/converter/legacy/internal/config.go | 33 ++++++++++--------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 3742d2d..047d646 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -195,34 +195,16 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			services := make([]*droneyaml.Container, 0)
 			for _, service := range current.Services {
-				if len(service.When.Matrix) == 0 {
+				if matchAxis(service.When.Matrix, environ) {
 					services = append(services, service)
-					continue
-				}
-
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
 				}
 			}
 			current.Services = services
 
 			steps := make([]*droneyaml.Container, 0)
 			for _, step := range current.Steps {
-				if len(step.When.Matrix) == 0 {
+				if matchAxis(step.When.Matrix, environ) {
 					steps = append(steps, step)
-					continue
-				}
-
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
 				}
 			}
 			current.Steps = steps
@@ -291,6 +273,17 @@ func toContainer(from *Container) *droneyaml.Container {
 	}
 }
 
+// helper function returns true if the axis matches all of
+// the matrix constraints.
+func matchAxis(when map[string]string, axis matrix.Axis) bool {
+	for key, value := range when {
+		if v, ok := axis[key]; !ok || v != value {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function converts the legacy constraint syntax
 // to the new condition syntax.
 func toConditions(from Constraints) droneyaml.Conditions {
-- 
2.43.0


From 5d5beb8c45d948ddc6e1c231ce4debf2652b3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 16/53] fix: do not drop the legacy pipeline when the matrix is
 empty

---
 yaml/converter/legacy/internal/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 047d646..4970b97 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -182,13 +182,15 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		pipeline.PullSecrets = []string{".dockerconfigjson"}
 	}
 
+	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err := matrix.Parse(d)
-
+		axes, err = matrix.Parse(d)
 		if err != nil {
 			return nil, err
 		}
+	}
 
+	if len(axes) != 0 {
 		for index, environ := range axes {
 			current := pipeline
 			current.Name = fmt.Sprintf("matrix-%d", index+1)
-- 
2.43.0


From ec4d77f4ec353d332f98d79d1d6fd61eb656f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 17/53] fix: ignore empty legacy volumes and secrets

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 4970b97..da4c7d1 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -344,6 +344,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -414,6 +417,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -434,6 +440,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From 32aaa1931892460b27d5ca64c289a6028a3e534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 18/53] fix: declare the volumes mounted by legacy clone steps

---
 yaml/converter/legacy/internal/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index da4c7d1..a796e74 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -435,6 +435,7 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 	to := []*droneyaml.Volume{}
 
 	containers := []*Container{}
+	containers = append(containers, from.Clone.Containers...)
 	containers = append(containers, from.Pipeline.Containers...)
 	containers = append(containers, from.Services.Containers...)
 
-- 
2.43.0


From fe2c92fd22cce02c41b2121bd19b089fe4cce37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 19/53] fix: rename duplicate legacy steps to a name that is
 not in use

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index a796e74..fb23173 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -137,7 +137,10 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		if _, ok := names[step.Name]; ok {
+		for {
+			if _, ok := names[step.Name]; !ok {
+				break
+			}
 			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
 		}
 		names[step.Name] = struct{}{}
-- 
2.43.0


From 77d43118608b3521fd9513c3c4ffdf4537e3a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 20/53] fix: do not execute backtick substitutions when tracing
 a command

---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 4d6cc958aeb01bb4c5af088813144c8ae5707c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 21/53] fix: escape quotes when tracing a powershell command

---
 yaml/compiler/script_win.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..121bf1f 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = quoteReplacerWin.Replace(escaped)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
@@ -45,6 +46,17 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	dst.Envs["SHELL"] = "powershell.exe"
 }
 
+// quoteReplacerWin escapes the characters that terminate a
+// single-quoted powershell string. Note that powershell does
+// not distinguish between straight and curly quotes.
+var quoteReplacerWin = strings.NewReplacer(
+	"'", "''",
+	"\u2018", "\u2018\u2018",
+	"\u2019", "\u2019\u2019",
+	"\u201a", "\u201a\u201a",
+	"\u201b", "\u201b\u201b",
+)
+
 // buildScriptWin is a helper script this is added to the build
 // to prepare the environment and execute the build commands.
 const buildScriptWin = `
-- 
2.43.0


From c4fb0e08a17fe03e671e8e5d0341dbfaa377319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 22/53] fix: use the working directory defined by the user

---
 yaml/compiler/step.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 5502f97..0b77632 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -59,14 +59,9 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 		RunPolicy:    toRunPolicy(src),
 		Secrets:      nil, // set below
 		Volumes:      nil, // set below
-		WorkingDir:   "",  // set in compiler.go
-	}
-
-	// if the user is running a service container with
-	// no custom commands, we should revert back to the
-	// user-defined working directory, which may be empty.
-	if dst.Detach && len(src.Commands) == 0 {
-		dst.WorkingDir = src.WorkingDir
+		// the user-defined working directory, which may be
+		// empty. The default is set in compiler.go
+		WorkingDir: src.WorkingDir,
 	}
 
 	// appends the volumes to the container def.
-- 
2.43.0


From 057a5727771a5561891cc76b8cfde5eaa10f0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 23/53] fix: compile settings in a deterministic order

---
 yaml/compiler/step.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 0b77632..94bde7a 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -102,8 +103,16 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 	}
 
 	// appends the settings variables to the
-	// container definition.
-	for key, value := range src.Settings {
+	// container definition. Note that the keys are not case
+	// sensitive and are sorted to ensure the value of
+	// duplicate keys is deterministic.
+	var keys []string
+	for key := range src.Settings {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
-- 
2.43.0


From 2a5cd8bf755029cf0cf7d4a6bb5396c9b6d666ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 24/53] fix: reject invalid conditions instead of matching
 everything

---
 yaml/cond.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index f6716ed..f2847f4 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -79,24 +79,48 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var out1 string
 	var out2 []string
 	var out3 = struct {
-		Include []string
-		Exclude []string
+		Include patterns
+		Exclude patterns
 	}{}
 
 	err := unmarshal(&out1)
 	if err == nil {
 		c.Include = []string{out1}
+		c.Exclude = nil
 		return nil
 	}
 
-	unmarshal(&out2)
-	unmarshal(&out3)
+	err = unmarshal(&out2)
+	if err == nil {
+		c.Include = out2
+		c.Exclude = nil
+		return nil
+	}
 
+	// an invalid condition must be rejected. A condition that
+	// is ignored would otherwise match everything.
+	err = unmarshal(&out3)
+	if err != nil {
+		return err
+	}
+	c.Include = out3.Include
 	c.Exclude = out3.Exclude
-	c.Include = append(
-		out3.Include,
-		out2...,
-	)
-
 	return nil
 }
+
+// patterns is a tempoary type used to unmarshal a list of
+// patterns that can be defined as a string or string slice.
+type patterns []string
+
+// UnmarshalYAML implements yml unmarshalling.
+func (p *patterns) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var out1 string
+	if err := unmarshal(&out1); err == nil {
+		*p = []string{out1}
+		return nil
+	}
+	var out2 []string
+	err := unmarshal(&out2)
+	*p = out2
+	return err
+}
-- 
2.43.0


From 31dcf3e74d00a4cffd97b72cba7f100d8f88d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 25/53] fix: encode and decode nested and numeric settings in
 json format

---
 yaml/param.go | 91 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 91 insertions(+)

diff --git a/yaml/param.go b/yaml/param.go
index 9167d6a..2c0d7fd 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,6 +14,14 @@
 
 package yaml
 
+import (
+	"bytes"
+	"encoding/json"
+	"fmt"
+	"strconv"
+	"strings"
+)
+
 type (
 	// Parameter represents an configuration parameter that
 	// can be defined as a literal or as a reference
@@ -53,3 +61,86 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	}
 	return p.Value, nil
 }
+
+// MarshalJSON implements json marshalling.
+func (p *Parameter) MarshalJSON() ([]byte, error) {
+	type alias Parameter
+	return json.Marshal(&alias{
+		Value:  toJSON(p.Value),
+		Secret: p.Secret,
+	})
+}
+
+// UnmarshalJSON implements json unmarshalling. The value is
+// converted to the types used by the yaml parser.
+func (p *Parameter) UnmarshalJSON(b []byte) error {
+	type alias Parameter
+	out := new(alias)
+	dec := json.NewDecoder(bytes.NewReader(b))
+	dec.UseNumber()
+	if err := dec.Decode(out); err != nil {
+		return err
+	}
+	p.Value = fromJSON(out.Value)
+	p.Secret = out.Secret
+	return nil
+}
+
+// helper function converts a value from the types used by
+// the yaml parser to types that can be encoded as json.
+func toJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case map[interface{}]interface{}:
+		m := map[string]interface{}{}
+		for key, value := range v {
+			m[fmt.Sprint(key)] = toJSON(value)
+		}
+		return m
+	case []interface{}:
+		s := make([]interface{}, len(v))
+		for i := range v {
+			s[i] = toJSON(v[i])
+		}
+		return s
+	case float64:
+		// floating point numbers are distinguished from
+		// integers by the decimal point or exponent.
+		s := strconv.FormatFloat(v, 'g', -1, 64)
+		if !strings.ContainsAny(s, ".eIN") {
+			s += ".0"
+		}
+		return json.Number(s)
+	default:
+		return v
+	}
+}
+
+// helper function converts a value from the types used by
+// the json parser to the types used by the yaml parser.
+func fromJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case map[string]interface{}:
+		m := map[interface{}]interface{}{}
+		for key, value := range v {
+			m[key] = fromJSON(value)
+		}
+		return m
+	case []interface{}:
+		s := make([]interface{}, len(v))
+		for i := range v {
+			s[i] = fromJSON(v[i])
+		}
+		return s
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		f, _ := v.Float64()
+		return f
+	default:
+		return v
+	}
+}
-- 
2.43.0


From 8789005d595c54dc40ec91be7f723693dfdc7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 26/53] fix: escape non-printable characters when formatting

---
 yaml/pretty/util.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 5199ff6..c534f0c 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -16,6 +16,7 @@ package pretty
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/drone/drone-yaml/yaml"
 
@@ -133,12 +134,23 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the string has no
+// characters that should be escaped.
+func isPrintable(s string) bool {
+	for _, r := range s {
+		if !unicode.IsPrint(r) {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function returns true if the unquoted string can
 // be read back, unchanged, by a yaml parser.
 func isPlain(s string) bool {
 	// the merge key indicator has a special meaning
 	// when used as a mapping key.
-	if s == "<<" {
+	if s == "<<" || !isPrintable(s) {
 		return false
 	}
 	out := map[string]string{}
@@ -150,6 +162,9 @@ func isPlain(s string) bool {
 // read back by a yaml parser as a string, as opposed to a
 // boolean, number or null.
 func isPlainString(s string) bool {
+	if !isPrintable(s) {
+		return false
+	}
 	out := map[string]interface{}{}
 	err := goyaml.Unmarshal([]byte("k: "+s+"\n"), &out)
 	return err == nil && len(out) == 1 && out["k"] == s
-- 
2.43.0


From 0441a88cc6fba2e04bc3afbb7589f66cd44bbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 27/53] fix: return an error when the yaml parser panics

---
 yaml/parse.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 5f184ed..0fe5ad0 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -94,10 +95,22 @@ func parseRaw(r *RawResource) (Resource, error) {
 	default:
 		obj = new(Pipeline)
 	}
-	err := yaml.Unmarshal(r.Data, obj)
+	err := unmarshal(r.Data, obj)
 	return obj, err
 }
 
+// unmarshal parses the yaml document. The yaml parser does
+// not return an error for all malformed documents and may
+// panic, which is returned as an error.
+func unmarshal(b []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+	return yaml.Unmarshal(b, v)
+}
+
 // ParseRaw parses the multi-document yaml from the
 // io.Reader and returns a slice of raw resources.
 func ParseRaw(r io.Reader) ([]*RawResource, error) {
@@ -140,7 +153,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		return nil, err
 	}
 	for _, resource := range resources {
-		err := yaml.Unmarshal(resource.Data, resource)
+		err := unmarshal(resource.Data, resource)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 59e9c81a4660901a3cdf1fa2f5ff93b40858f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 28/53] fix: return an error when converting a document the
 yaml parser panics on

---
 yaml/converter/bitbucket/convert.go      | 12 ++++++++++--
 yaml/converter/gitlab/convert.go         | 12 ++++++++++--
 yaml/converter/legacy/internal/config.go | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index f05a37e..b7e1036 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -17,9 +17,17 @@ import (
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
-func Convert(b []byte, ref string) ([]byte, error) {
+func Convert(b []byte, ref string) (_ []byte, err error) {
+	// the yaml parser may panic when parsing malformed
+	// documents, which is returned as an error.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+
 	config := new(Config)
-	err := yaml.Unmarshal(b, config)
+	err = yaml.Unmarshal(b, config)
 	if err != nil {
 		return nil, err
 	}
diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 03c4e6e..bd81402 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -19,9 +19,17 @@ import (
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
-func Convert(b []byte) ([]byte, error) {
+func Convert(b []byte) (_ []byte, err error) {
+	// the yaml parser may panic when parsing malformed
+	// documents, which is returned as an error.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+
 	config := new(Config)
-	err := yaml.Unmarshal(b, config)
+	err = yaml.Unmarshal(b, config)
 	if err != nil {
 		return nil, err
 	}
diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index fb23173..67d81bc 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -41,7 +41,15 @@ type Config struct {
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
-func Convert(d []byte, remote string) ([]byte, error) {
+func Convert(d []byte, remote string) (_ []byte, err error) {
+	// the yaml parser may panic when parsing malformed
+	// documents, which is returned as an error.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+
 	// hack: this is a hack to support teams migrating
 	// from 0.8 to 1.0 that are using yaml merge keys.
 	// it can be removed in a future version.
@@ -50,7 +58,7 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	}
 
 	from := new(Config)
-	err := yaml.Unmarshal(d, from)
+	err = yaml.Unmarshal(d, from)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 54eb0f2e5ed30a9a716374d66ae11e1a43914c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 29/53] fix: keep the raw data of a null document

---
 yaml/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 0fe5ad0..cd26ab8 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -153,10 +153,14 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		return nil, err
 	}
 	for _, resource := range resources {
-		err := unmarshal(resource.Data, resource)
+		// a null document resets the resource, and must
+		// not reset the raw data.
+		data := resource.Data
+		err := unmarshal(data, resource)
 		if err != nil {
 			return nil, err
 		}
+		resource.Data = data
 	}
 	return resources, nil
 }
-- 
2.43.0


From 93a2d798e1e65639d12b98887bcb1109eda28b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 30/53] fix: format empty sections and entries instead of
 dropping them

---
 yaml/pretty/container.go | 88 +++++++++++++++++++++++++++++++++-------
 yaml/pretty/pipeline.go  | 43 +++++++++++++++++---
 yaml/pretty/writer.go    | 17 +++++++-
 3 files changed, 125 insertions(+), 23 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index b3ed816..93d1d9d 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -30,7 +30,7 @@ func printContainer(w writer, v *yaml.Container) {
 		printBuild(w, v.Build)
 	}
 	if v.Push != nil {
-		w.WriteTagValue("push", v.Push.Image)
+		printPush(w, v.Push)
 	}
 
 	w.WriteTagValue("detach", v.Detach)
@@ -56,16 +56,16 @@ func printContainer(w writer, v *yaml.Container) {
 	w.WriteTagValue("privileged", v.Privileged)
 	w.WriteTagValue("working_dir", v.WorkingDir)
 
-	if len(v.Devices) > 0 {
+	if !isDeviceMountsEmpty(v.Devices) {
 		printDeviceMounts(w, v.Devices)
 	}
-	if len(v.Ports) > 0 {
+	if !isPortsEmpty(v.Ports) {
 		printPorts(w, v.Ports)
 	}
 	if v.Resources != nil {
 		printResources(w, v.Resources)
 	}
-	if len(v.Volumes) > 0 {
+	if !isVolumeMountsEmpty(v.Volumes) {
 		printVolumeMounts(w, v.Volumes)
 	}
 	if !isConditionsEmpty(v.When) {
@@ -80,7 +80,9 @@ func printContainer(w writer, v *yaml.Container) {
 // helper function pretty prints the build node.
 func printBuild(w writer, v *yaml.Build) {
 	if shortBuild(v) {
-		w.WriteTagValue("build", v.Image)
+		w.WriteTag("build")
+		w.WriteByte(' ')
+		writeValue(w, v.Image)
 	} else {
 		w.WriteTag("build")
 		w.IndentIncrease()
@@ -94,6 +96,13 @@ func printBuild(w writer, v *yaml.Build) {
 	}
 }
 
+// helper function pretty prints the push node.
+func printPush(w writer, v *yaml.Push) {
+	w.WriteTag("push")
+	w.WriteByte(' ')
+	writeValue(w, v.Image)
+}
+
 // helper function pretty prints the depends_on sequence.
 func printDependsOn(w writer, v []string) {
 	w.WriteTagValue("depends_on", v)
@@ -111,6 +120,7 @@ func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.DevicePath)
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
@@ -172,25 +182,39 @@ func printPorts(w writer, v []*yaml.Port) {
 // helper function pretty prints the resource mapping.
 func printResources(w writer, v *yaml.Resources) {
 	w.WriteTag("resources")
+	if v.Limits == nil && v.Requests == nil {
+		w.WriteByte(' ')
+		w.WriteByte('{')
+		w.WriteByte('}')
+		return
+	}
 	w.IndentIncrease()
 
 	if v.Limits != nil {
-		w.WriteTag("limits")
-		w.IndentIncrease()
-		w.WriteTagValue("cpu", v.Limits.CPU)
-		w.WriteTagValue("memory", v.Limits.Memory)
-		w.IndentDecrease()
+		printResourceObject(w, "limits", v.Limits)
 	}
 	if v.Requests != nil {
-		w.WriteTag("requests")
-		w.IndentIncrease()
-		w.WriteTagValue("cpu", v.Requests.CPU)
-		w.WriteTagValue("memory", v.Requests.Memory)
-		w.IndentDecrease()
+		printResourceObject(w, "requests", v.Requests)
 	}
 	w.IndentDecrease()
 }
 
+// helper function pretty prints the resource limits
+// or requests.
+func printResourceObject(w writer, name string, v *yaml.ResourceObject) {
+	w.WriteTag(name)
+	if v.CPU == 0 && v.Memory == 0 {
+		w.WriteByte(' ')
+		w.WriteByte('{')
+		w.WriteByte('}')
+		return
+	}
+	w.IndentIncrease()
+	w.WriteTagValue("cpu", v.CPU)
+	w.WriteTagValue("memory", v.Memory)
+	w.IndentDecrease()
+}
+
 // helper function pretty prints the resoure mapping.
 func printSettings(w writer, v map[string]*yaml.Parameter) {
 	var keys []string
@@ -237,6 +261,7 @@ func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.MountPath)
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
@@ -263,3 +288,36 @@ func shortBuild(b *yaml.Build) bool {
 func shortPort(p *yaml.Port) bool {
 	return p.Host == 0 && len(p.Protocol) == 0
 }
+
+// helper function returns true if the list has no
+// entries. Null entries are ignored.
+func isDeviceMountsEmpty(v []*yaml.VolumeDevice) bool {
+	for _, v := range v {
+		if v != nil {
+			return false
+		}
+	}
+	return true
+}
+
+// helper function returns true if the list has no
+// entries. Null entries are ignored.
+func isPortsEmpty(v []*yaml.Port) bool {
+	for _, v := range v {
+		if v != nil {
+			return false
+		}
+	}
+	return true
+}
+
+// helper function returns true if the list has no
+// entries. Null entries are ignored.
+func isVolumeMountsEmpty(v []*yaml.VolumeMount) bool {
+	for _, v := range v {
+		if v != nil {
+			return false
+		}
+	}
+	return true
+}
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index 9495b6e..796908d 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -42,7 +42,7 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 		printWorkspace(w, v.Workspace)
 	}
 
-	if len(v.Steps) > 0 {
+	if !isContainersEmpty(v.Steps) {
 		w.WriteTag("steps")
 		for _, step := range v.Steps {
 			if step == nil {
@@ -52,11 +52,12 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			seq.WriteEmpty()
 			seq.IndentDecrease()
 		}
 	}
 
-	if len(v.Services) > 0 {
+	if !isContainersEmpty(v.Services) {
 		w.WriteTag("services")
 		for _, step := range v.Services {
 			if step == nil {
@@ -66,11 +67,12 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			seq.WriteEmpty()
 			seq.IndentDecrease()
 		}
 	}
 
-	if len(v.Volumes) != 0 {
+	if !isVolumesEmpty(v.Volumes) {
 		printVolumes(w, v.Volumes)
 		w.WriteByte('\n')
 	}
@@ -231,11 +233,18 @@ func printVolumes(w writer, v []*yaml.Volume) {
 
 		if v := v.HostPath; v != nil {
 			s.WriteTag("host")
-			s.IndentIncrease()
-			s.WriteTagValue("path", v.Path)
-			s.IndentDecrease()
+			if v.Path == "" {
+				w.WriteByte(' ')
+				w.WriteByte('{')
+				w.WriteByte('}')
+			} else {
+				s.IndentIncrease()
+				s.WriteTagValue("path", v.Path)
+				s.IndentDecrease()
+			}
 		}
 
+		s.WriteEmpty()
 		s.IndentDecrease()
 	}
 }
@@ -305,3 +314,25 @@ func isConditionEmpty(v yaml.Condition) bool {
 func isEmptyDirEmpty(v *yaml.VolumeEmptyDir) bool {
 	return v.SizeLimit == 0 && len(v.Medium) == 0
 }
+
+// helper function returns true if the list has no
+// containers. Null entries are ignored.
+func isContainersEmpty(v []*yaml.Container) bool {
+	for _, v := range v {
+		if v != nil {
+			return false
+		}
+	}
+	return true
+}
+
+// helper function returns true if the list has no
+// volumes. Null entries are ignored.
+func isVolumesEmpty(v []*yaml.Volume) bool {
+	for _, v := range v {
+		if v != nil {
+			return false
+		}
+	}
+	return true
+}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 988d3f4..76e2754 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -115,7 +115,7 @@ func (w *baseWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
@@ -165,12 +165,25 @@ func (w *indexWriter) WriteTag(v interface{}) {
 	w.index++
 }
 
+// WriteEmpty writes an empty entry to the buffer if
+// nothing was written.
+func (w *indexWriter) WriteEmpty() {
+	if w.index != 0 {
+		return
+	}
+	w.WriteByte('\n')
+	w.IndentDecrease()
+	w.Indent()
+	w.IndentIncrease()
+	w.WriteString("- {}")
+}
+
 func (w *indexWriter) WriteTagValue(k, v interface{}) {
 	if isZero(v) && w.zero == false {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
-- 
2.43.0


From d9f715aad51047c756e8c0d541e87c59907b9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 31/53] fix: format negative zero so that it is read back as a
 number

---
 yaml/pretty/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 76e2754..f0700f2 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -217,6 +217,8 @@ func writeFloat(w writer, v float64) {
 		w.WriteString(".inf")
 	case math.IsInf(v, -1):
 		w.WriteString("-.inf")
+	case v == 0 && math.Signbit(v):
+		w.WriteString("-0.0")
 	default:
 		w.WriteString(
 			strconv.FormatFloat(v, 'g', -1, 64),
-- 
2.43.0


From 65fb53d88cd8fab2ce9888923d6c7efd36a3ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 32/53] fix: do not mount the git credentials as the script of
 a step with the same name

---
 yaml/compiler/script_posix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index 1628326..543a95f 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -40,16 +40,19 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 		buildScript,
 		buf.String(),
 	)
+	// files are looked up by name. The unique step id is used
+	// to ensure the name does not conflict with the name of
+	// another file (e.g. the git credentials).
 	spec.Files = append(spec.Files, &engine.File{
 		Metadata: engine.Metadata{
 			UID:       rand.String(),
 			Namespace: spec.Metadata.Namespace,
-			Name:      src.Name,
+			Name:      dst.Metadata.UID,
 		},
 		Data: []byte(script),
 	})
 	dst.Files = append(dst.Files, &engine.FileMount{
-		Name: src.Name,
+		Name: dst.Metadata.UID,
 		Path: "/usr/drone/bin/init",
 		Mode: 0777,
 	})
-- 
2.43.0


From 85c9f76d0b1fb765ff446efd3a5bc22528a52fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 33/53] fix: do not panic when adding labels to the host
 workspace volume

---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 4f85b90455fbff4c1188f9e8d488ca190d11bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 34/53] fix: do not write to the dependencies of the yaml
 configuration when compiling services

---
 yaml/compiler/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 91f81a1..669abfc 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -187,7 +187,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		// not start until the clone step is complete. Add
 		// the clone step as a dependency in the graph.
 		if isSerial == false && from.Clone.Disable == false {
-			step.DependsOn = append(step.DependsOn, cloneStepName)
+			// the slice is copied to avoid writing to the
+			// underlying array of the yaml configuration.
+			step.DependsOn = append(
+				append([]string{}, step.DependsOn...), cloneStepName)
 		}
 		spec.Steps = append(spec.Steps, step)
 	}
-- 
2.43.0


From 32faa2836531fea0f2716878a253283d5e459aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 35/53] fix: reject byte sizes that exceed the capacity of the
 integer

---
 yaml/unit.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yaml/unit.go b/yaml/unit.go
index 3da785f..e149204 100644
--- a/yaml/unit.go
+++ b/yaml/unit.go
@@ -15,6 +15,7 @@
 package yaml
 
 import (
+	"fmt"
 	"strconv"
 
 	"github.com/docker/go-units"
@@ -39,10 +40,16 @@ func (b *BytesSize) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	}
 
 	intType, err := units.RAMInBytes(stringType)
-	if err == nil {
-		*b = BytesSize(intType)
+	if err != nil {
+		return err
+	}
+	// a size is never negative. The size is negative if the
+	// number of bytes exceeds the capacity of the integer.
+	if intType < 0 {
+		return fmt.Errorf("invalid size: '%s'", stringType)
 	}
-	return err
+	*b = BytesSize(intType)
+	return nil
 }
 
 // String returns a human-readable size in bytes,
-- 
2.43.0


From 47d6ce37c4f533f01d1890e1e9fa8a69d618783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 36/53] fix: check the exit code of a windows command that ends
 with a comment

---
 yaml/compiler/script_win.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index 121bf1f..bcddc8d 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -77,8 +77,11 @@ $ErrorActionPreference = 'Stop';
 `
 
 // traceScriptWin is a helper script that is added to
-// the build script to trace a command.
+// the build script to trace a command. The exit code is
+// checked on a new line, because the command may end with
+// a comment.
 const traceScriptWin = `
 Write-Output ('+ %s');
-& %s; if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}
+& %s
+if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}
 `
-- 
2.43.0


From 2647d8f48b25651956e0d2aceca493ea2db50a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 37/53] fix: keep the text of numbers when converting legacy
 containers

---
 yaml/converter/legacy/internal/container.go | 26 +++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/yaml/converter/legacy/internal/container.go b/yaml/converter/legacy/internal/container.go
index 460bf82..f4601f6 100644
--- a/yaml/converter/legacy/internal/container.go
+++ b/yaml/converter/legacy/internal/container.go
@@ -48,15 +48,31 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 
+	// the containers are decoded from the original document
+	// because the values of the slice are already resolved,
+	// and no longer have the original text (e.g. 1.10).
+	containers := map[interface{}]*Container{}
+	if err := unmarshal(&containers); err != nil {
+		return err
+	}
+
+	count := map[interface{}]int{}
+	for _, s := range slice {
+		count[s.Key]++
+	}
+
 	for _, s := range slice {
-		container := Container{}
-		out, _ := yaml.Marshal(s.Value)
+		container := containers[s.Key]
+		if container == nil || count[s.Key] > 1 {
+			container = &Container{}
+			out, _ := yaml.Marshal(s.Value)
 
-		if err := yaml.Unmarshal(out, &container); err != nil {
-			return err
+			if err := yaml.Unmarshal(out, container); err != nil {
+				return err
+			}
 		}
 		container.Name = fmt.Sprintf("%v", s.Key)
-		c.Containers = append(c.Containers, &container)
+		c.Containers = append(c.Containers, container)
 	}
 	return nil
 }
-- 
2.43.0


From 3db030b59cac61595a684b5c14b22101c260e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 38/53] fix: keep the order and the text of legacy containers
 that use merge keys

---
 yaml/converter/legacy/internal/config.go     |  7 --
 yaml/converter/legacy/internal/constraint.go | 10 +++
 yaml/converter/legacy/internal/container.go  | 93 ++++++++++++++++++--
 yaml/converter/legacy/internal/secret.go     |  3 +
 yaml/converter/legacy/internal/yaml.go       | 33 -------
 5 files changed, 99 insertions(+), 47 deletions(-)
 delete mode 100644 yaml/converter/legacy/internal/yaml.go

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 67d81bc..cc8f9e3 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -50,13 +50,6 @@ func Convert(d []byte, remote string) (_ []byte, err error) {
 		}
 	}()
 
-	// hack: this is a hack to support teams migrating
-	// from 0.8 to 1.0 that are using yaml merge keys.
-	// it can be removed in a future version.
-	if hasMergeKeys(d) {
-		d, _ = expandMergeKeys(d)
-	}
-
 	from := new(Config)
 	err = yaml.Unmarshal(d, from)
 
diff --git a/yaml/converter/legacy/internal/constraint.go b/yaml/converter/legacy/internal/constraint.go
index 518db2a..3f98251 100644
--- a/yaml/converter/legacy/internal/constraint.go
+++ b/yaml/converter/legacy/internal/constraint.go
@@ -30,6 +30,16 @@ type (
 	}
 )
 
+// UnmarshalYAML unmarshals the constraints, and replaces the
+// constraints that are set by a merge key.
+func (c *Constraints) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	type constraints Constraints
+	out := constraints{}
+	err := unmarshal(&out)
+	*c = Constraints(out)
+	return err
+}
+
 // UnmarshalYAML unmarshals the constraint.
 func (c *Constraint) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var out1 = struct {
diff --git a/yaml/converter/legacy/internal/container.go b/yaml/converter/legacy/internal/container.go
index f4601f6..cf1b0a4 100644
--- a/yaml/converter/legacy/internal/container.go
+++ b/yaml/converter/legacy/internal/container.go
@@ -6,6 +6,10 @@ package yaml
 
 import (
 	"fmt"
+	"reflect"
+	"sort"
+	"strings"
+	"sync/atomic"
 
 	"github.com/buildkite/yaml"
 )
@@ -50,9 +54,10 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	// the containers are decoded from the original document
 	// because the values of the slice are already resolved,
-	// and no longer have the original text (e.g. 1.10).
-	containers := map[interface{}]*Container{}
-	if err := unmarshal(&containers); err != nil {
+	// and no longer have the original text (e.g. 1.10). This
+	// includes containers that are defined by merge keys.
+	entries := map[interface{}]*entry{}
+	if err := unmarshal(&entries); err != nil {
 		return err
 	}
 
@@ -61,9 +66,34 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		count[s.Key]++
 	}
 
+	// the containers that are defined by merge keys, in the
+	// order they are defined.
+	var merged []interface{}
+	for key := range entries {
+		if count[key] == 0 {
+			merged = append(merged, key)
+		}
+	}
+	sort.Slice(merged, func(i, j int) bool {
+		return entries[merged[i]].position() < entries[merged[j]].position()
+	})
+
+	add := func(key interface{}, container *Container) {
+		container.Name = fmt.Sprintf("%v", key)
+		c.Containers = append(c.Containers, container)
+	}
+
+	// the containers may already be set by a merge key.
+	c.Containers = nil
+
 	for _, s := range slice {
-		container := containers[s.Key]
-		if container == nil || count[s.Key] > 1 {
+		from := entries[s.Key]
+		for len(merged) > 0 && entries[merged[0]].position() < from.position() {
+			add(merged[0], entries[merged[0]].get())
+			merged = merged[1:]
+		}
+		container := from.get()
+		if count[s.Key] > 1 {
 			container = &Container{}
 			out, _ := yaml.Marshal(s.Value)
 
@@ -71,8 +101,57 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 				return err
 			}
 		}
-		container.Name = fmt.Sprintf("%v", s.Key)
-		c.Containers = append(c.Containers, container)
+		add(s.Key, container)
+	}
+	for _, key := range merged {
+		add(key, entries[key].get())
 	}
 	return nil
 }
+
+// entry is a container and its position in the document.
+type entry struct {
+	container Container
+	pos       uint64
+}
+
+// positions counts the containers that are decoded.
+var positions uint64
+
+// UnmarshalYAML implements the Unmarshaller interface.
+func (e *entry) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	e.pos = atomic.AddUint64(&positions, 1)
+	if err := unmarshal(&e.container); err != nil {
+		return err
+	}
+
+	// the yaml parser drops the inline values of a struct
+	// that are followed by a merge key.
+	vargs := map[string]interface{}{}
+	if err := unmarshal(&vargs); err != nil {
+		return err
+	}
+	t := reflect.TypeOf(e.container)
+	for i := 0; i < t.NumField(); i++ {
+		delete(vargs, strings.Split(t.Field(i).Tag.Get("yaml"), ",")[0])
+	}
+	e.container.Vargs = vargs
+	return nil
+}
+
+// get returns the container. The entry is nil if the value
+// is null.
+func (e *entry) get() *Container {
+	if e == nil {
+		return &Container{}
+	}
+	return &e.container
+}
+
+// position returns the position of the container.
+func (e *entry) position() uint64 {
+	if e == nil {
+		return 0
+	}
+	return e.pos
+}
diff --git a/yaml/converter/legacy/internal/secret.go b/yaml/converter/legacy/internal/secret.go
index 84e3cb1..a672e34 100644
--- a/yaml/converter/legacy/internal/secret.go
+++ b/yaml/converter/legacy/internal/secret.go
@@ -19,6 +19,9 @@ type (
 
 // UnmarshalYAML implements the Unmarshaller interface.
 func (s *Secrets) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	// the secrets may already be set by a merge key.
+	s.Secrets = nil
+
 	var strslice []string
 	err := unmarshal(&strslice)
 	if err == nil {
diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
deleted file mode 100644
index 0b1d33f..0000000
--- a/yaml/converter/legacy/internal/yaml.go
+++ /dev/null
@@ -1,33 +0,0 @@
-// Copyright 2019 Drone.IO Inc. All rights reserved.
-// Use of this source code is governed by the Drone Non-Commercial License
-// that can be found in the LICENSE file.
-
-package yaml
-
-import (
-	"bytes"
-
-	"github.com/vinzenz/yaml"
-)
-
-type temporary struct {
-	Attributes map[string]interface{} `yaml:",inline"`
-	Pipeline   yaml.MapSlice          `yaml:"pipeline"`
-}
-
-// this is a helper function that expands merge keys
-func expandMergeKeys(b []byte) ([]byte, error) {
-	v := new(temporary)
-	if err := yaml.Unmarshal(b, v); err != nil {
-		return b, err
-	}
-	o, err := yaml.Marshal(v)
-	if err != nil {
-		return b, err
-	}
-	return o, nil
-}
-
-func hasMergeKeys(b []byte) bool {
-	return bytes.Contains(b, []byte("<<:"))
-}
-- 
2.43.0


From 3ce03c648798e97967f30a85808a4922a1cb30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 39/53] fix: do not convert hidden gitlab jobs to steps

---
 yaml/converter/gitlab/convert.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index bd81402..2354b2a 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -123,7 +123,8 @@ func Convert(b []byte) (_ []byte, err error) {
 // helper function returns the names of the jobs in the
 // order they are defined in the configuration file. Jobs
 // that are defined by merge keys are returned last. Empty
-// jobs are ignored.
+// jobs are ignored, and so are hidden jobs, which have a
+// name that starts with a dot and are only templates.
 func jobNames(b []byte, config *Config) ([]string, error) {
 	slice := yaml.MapSlice{}
 	if err := yaml.Unmarshal(b, &slice); err != nil {
@@ -133,7 +134,7 @@ func jobNames(b []byte, config *Config) ([]string, error) {
 	seen := map[string]struct{}{}
 	add := func(name string) {
 		job, ok := config.Jobs[name]
-		if !ok || job == nil {
+		if !ok || job == nil || strings.HasPrefix(name, ".") {
 			return
 		}
 		if _, ok := seen[name]; ok {
-- 
2.43.0


From e80f64512b62a43ab14d32bd8664b6e8f841d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 40/53] fix: convert gitlab jobs that do not define a stage

---
 yaml/converter/gitlab/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 2354b2a..a6e9b94 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -17,6 +17,10 @@ import (
 	"github.com/buildkite/yaml"
 )
 
+// defaultStage is the stage of the jobs that do not
+// define a stage.
+const defaultStage = "test"
+
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
 func Convert(b []byte) (_ []byte, err error) {
@@ -60,7 +64,7 @@ func Convert(b []byte) (_ []byte, err error) {
 		manifest.Resources = append(manifest.Resources, pipeline)
 		for _, name := range jobs {
 			job := config.Jobs[name]
-			if job.Stage != stage {
+			if job.Stage != stage && !(job.Stage == "" && stage == defaultStage) {
 				continue
 			}
 			cmds := []string(config.Before)
-- 
2.43.0


From c32dd574b6f6ec6eebcb0d71c7b83786fe14c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 41/53] fix: reset the gitlab image when it is overridden by
 its name

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index f97db3b..b496e5b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -108,7 +108,7 @@ func (i *Image) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var name string
 	err := unmarshal(&name)
 	if err == nil {
-		i.Name = name
+		*i = Image{Name: name}
 		return nil
 	}
 	data := struct {
-- 
2.43.0


From 4e518ccb55f7e810870b09a5b015f5ec14e0bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 42/53] fix: do not write a terminator for a manifest without
 documents

---
 yaml/pretty/pretty.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index ff2390f..2be0215 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -37,7 +37,9 @@ func Print(w io.Writer, v *yaml.Manifest) {
 			printPipeline(state, t)
 		}
 	}
-	state.WriteString("...")
-	state.WriteByte('\n')
+	if state.Len() != 0 {
+		state.WriteString("...")
+		state.WriteByte('\n')
+	}
 	w.Write(state.Bytes())
 }
-- 
2.43.0


From a14294e56d3afc8646225e1b237fa6ac60bfe88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 43/53] fix: return an error if the yaml parser panics on a
 matrix

---
 yaml/converter/legacy/matrix/matrix.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index c925bae..bcd585d 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"fmt"
 	"sort"
 	"strings"
 
@@ -114,7 +115,7 @@ func parse(raw []byte) (Matrix, error) {
 	data := struct {
 		Matrix map[string][]string
 	}{}
-	err := yaml.Unmarshal(raw, &data)
+	err := unmarshal(raw, &data)
 	return data.Matrix, err
 }
 
@@ -125,6 +126,18 @@ func parseList(raw []byte) ([]Axis, error) {
 		}
 	}{}
 
-	err := yaml.Unmarshal(raw, &data)
+	err := unmarshal(raw, &data)
 	return data.Matrix.Include, err
 }
+
+// unmarshal parses the yaml document. The yaml parser does
+// not return an error for all malformed documents and may
+// panic, which is returned as an error.
+func unmarshal(b []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+	return yaml.Unmarshal(b, v)
+}
-- 
2.43.0


From 760bbf17e840d8adb569102d0bfdc0b22ddf8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 44/53] fix: do not rename legacy steps to the name of a
 service

---
 yaml/converter/legacy/internal/config.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index cc8f9e3..60e3add 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -136,13 +136,20 @@ func Convert(d []byte, remote string) (_ []byte, err error) {
 		)
 	}
 
+	// a step that has the name of an earlier step is renamed.
+	// The new name must not be the name of a service.
+	services := map[string]struct{}{}
+	for _, service := range pipeline.Services {
+		services[service.Name] = struct{}{}
+	}
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		for {
-			if _, ok := names[step.Name]; !ok {
-				break
-			}
+		_, used := names[step.Name]
+		for used {
 			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
+			_, isStep := names[step.Name]
+			_, isService := services[step.Name]
+			used = isStep || isService
 		}
 		names[step.Name] = struct{}{}
 	}
-- 
2.43.0


From b252898b1c96159e505a8d144ba385f6b1c4319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 45/53] fix: keep the text of legacy containers with the same
 name

---
 yaml/converter/legacy/internal/container.go | 47 ++++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/legacy/internal/container.go b/yaml/converter/legacy/internal/container.go
index cf1b0a4..adee301 100644
--- a/yaml/converter/legacy/internal/container.go
+++ b/yaml/converter/legacy/internal/container.go
@@ -66,6 +66,23 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		count[s.Key]++
 	}
 
+	// the containers of a name that is used more than once,
+	// in the order they are defined.
+	named := map[string][]key{}
+	repeated := map[key]*entry{}
+	if len(count) < len(slice) {
+		// errors are already returned above.
+		unmarshal(&repeated)
+		for k := range repeated {
+			named[k.name] = append(named[k.name], k)
+		}
+		for _, keys := range named {
+			sort.Slice(keys, func(i, j int) bool {
+				return keys[i].pos < keys[j].pos
+			})
+		}
+	}
+
 	// the containers that are defined by merge keys, in the
 	// order they are defined.
 	var merged []interface{}
@@ -93,13 +110,13 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 			merged = merged[1:]
 		}
 		container := from.get()
-		if count[s.Key] > 1 {
-			container = &Container{}
-			out, _ := yaml.Marshal(s.Value)
-
-			if err := yaml.Unmarshal(out, container); err != nil {
-				return err
+		if n := count[s.Key]; n > 1 {
+			// the first ones may be defined by merge keys.
+			keys := named[fmt.Sprintf("%v", s.Key)]
+			if len(keys) >= n {
+				container = repeated[keys[len(keys)-n]].get()
 			}
+			count[s.Key]--
 		}
 		add(s.Key, container)
 	}
@@ -109,6 +126,24 @@ func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	return nil
 }
 
+// key is the name of a container and its position in the
+// document.
+type key struct {
+	name string
+	pos  uint64
+}
+
+// UnmarshalYAML implements the Unmarshaller interface.
+func (k *key) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var name interface{}
+	if err := unmarshal(&name); err != nil {
+		return err
+	}
+	k.name = fmt.Sprintf("%v", name)
+	k.pos = atomic.AddUint64(&positions, 1)
+	return nil
+}
+
 // entry is a container and its position in the document.
 type entry struct {
 	container Container
-- 
2.43.0


From 7091a74bf85f30b6fe3b9ef5e3b1ae35da3cb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 46/53] fix: write the variables of a matrix axis in a
 deterministic order

---
 yaml/converter/legacy/matrix/matrix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index bcd585d..9530d6c 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -30,6 +30,7 @@ func (a Axis) String() string {
 	for k, v := range a {
 		envs = append(envs, k+"="+v)
 	}
+	sort.Strings(envs)
 	return strings.Join(envs, " ")
 }
 
-- 
2.43.0


From 875e55c5c1cb5cb19746f09909530d588bae7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 47/53] fix: reject invalid constraints of legacy files

---
 yaml/converter/legacy/internal/constraint.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/constraint.go b/yaml/converter/legacy/internal/constraint.go
index 3f98251..e5972ff 100644
--- a/yaml/converter/legacy/internal/constraint.go
+++ b/yaml/converter/legacy/internal/constraint.go
@@ -49,8 +49,14 @@ func (c *Constraint) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	var out2 StringSlice
 
-	unmarshal(&out1)
-	unmarshal(&out2)
+	err1 := unmarshal(&out1)
+	err2 := unmarshal(&out2)
+
+	// an invalid constraint must be rejected. A constraint that
+	// is ignored would otherwise match everything.
+	if err1 != nil && err2 != nil {
+		return err1
+	}
 
 	c.Exclude = out1.Exclude
 	c.Include = append(
-- 
2.43.0


From a28e0162183ec7278ef031756af570196d299e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 48/53] fix: keep the gitlab jobs that are followed by a merge
 key

---
 yaml/converter/gitlab/config.go | 48 +++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index b496e5b..1537715 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -103,6 +103,54 @@ type (
 	}
 )
 
+// UnmarshalYAML implements custom parsing for a Config.
+func (c *Config) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	type config Config
+	out := config{}
+	if err := unmarshal(&out); err != nil {
+		return err
+	}
+
+	// the yaml parser drops the inline values of a struct
+	// that are followed by a merge key.
+	entries := map[string]*entry{}
+	if err := unmarshal(&entries); err != nil {
+		return err
+	}
+	for name, entry := range entries {
+		switch name {
+		case "image", "stages", "services", "variables",
+			"before_script", "after_script":
+			continue
+		}
+		if _, ok := out.Jobs[name]; ok || entry == nil {
+			continue
+		}
+		job := new(Job)
+		if err := entry.unmarshal(job); err != nil {
+			return err
+		}
+		if out.Jobs == nil {
+			out.Jobs = map[string]*Job{}
+		}
+		out.Jobs[name] = job
+	}
+	*c = Config(out)
+	return nil
+}
+
+// entry is an entry of the configuration that is not
+// decoded yet.
+type entry struct {
+	unmarshal func(interface{}) error
+}
+
+// UnmarshalYAML implements custom parsing for an entry.
+func (e *entry) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	e.unmarshal = unmarshal
+	return nil
+}
+
 // UnmarshalYAML implements custom parsing for an Image.
 func (i *Image) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var name string
-- 
2.43.0


From b9091e669b68b19d3373a1a59d8e7ed2fe5b92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 49/53] fix: expand a matrix whose number of permutations
 overflows

---
 yaml/converter/legacy/matrix/matrix.go | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 9530d6c..ca5df18 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -15,6 +15,7 @@ import (
 const (
 	limitTags = 10
 	limitAxis = 25
+	limitPerm = 1 << 16
 )
 
 // Matrix represents the build matrix.
@@ -61,19 +62,13 @@ func ParseString(data string) ([]Axis, error) {
 }
 
 func calc(matrix Matrix) []Axis {
-	// calculate number of permutations and extract the list of tags
-	// (ie go_version, redis_version, etc)
-	var perm int
+	// extract the list of tags (ie go_version, redis_version, etc)
 	var tags []string
 	for k, v := range matrix {
 		// ignore tags that have no values.
 		if len(v) == 0 {
 			continue
 		}
-		perm *= len(v)
-		if perm == 0 {
-			perm = len(v)
-		}
 		tags = append(tags, k)
 	}
 
@@ -81,17 +76,32 @@ func calc(matrix Matrix) []Axis {
 	// is deterministic.
 	sort.Strings(tags)
 
+	// calculate the number of permutations, and the number of
+	// permutations of the tags that follow each tag. Numbers
+	// above the limit have no effect and are capped, so that
+	// they do not overflow.
+	var perm int
+	if len(tags) != 0 {
+		perm = 1
+	}
+	decrs := make([]int, len(tags))
+	for i := len(tags) - 1; i >= 0; i-- {
+		decrs[i] = perm
+		perm *= len(matrix[tags[i]])
+		if perm > limitPerm {
+			perm = limitPerm
+		}
+	}
+
 	// structure to hold the transformed result set
 	axisList := []Axis{}
 
 	// for each axis calculate the uniqe set of values that should be used.
 	for p := 0; p < perm; p++ {
 		axis := map[string]string{}
-		decr := perm
 		for i, tag := range tags {
 			elems := matrix[tag]
-			decr = decr / len(elems)
-			elem := p / decr % len(elems)
+			elem := p / decrs[i] % len(elems)
 			axis[tag] = elems[elem]
 
 			// enforce a maximum number of tags in the build matrix.
-- 
2.43.0


From 7e80466043a583a9901ca3d6e084b08ba610debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 50/53] fix: recognize image digests if the program does not
 link sha256 otherwise

---
 yaml/compiler/image/image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/image/image.go b/yaml/compiler/image/image.go
index 52dc3e4..d88650d 100644
--- a/yaml/compiler/image/image.go
+++ b/yaml/compiler/image/image.go
@@ -14,7 +14,13 @@
 
 package image
 
-import "github.com/docker/distribution/reference"
+import (
+	// digests are not recognized unless the hash function is
+	// linked into the program.
+	_ "crypto/sha256"
+
+	"github.com/docker/distribution/reference"
+)
 
 // Trim returns the short image name without tag.
 func Trim(name string) string {
-- 
2.43.0


From 6a200133bad3b5c6ffc94e04919f5f174fd8672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 51/53] fix: use the last build of an image that is built more
 than once

---
 yaml/compiler/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 669abfc..15b4593 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -210,7 +210,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			// the same image may be written in different ways,
+			// in which case the last build is used.
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
 		}
-- 
2.43.0


From 683760f08fd0597bb5110e73f8edbc99c9cb48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 52/53] fix: keep the carriage returns at the end of a line
 when signing

---
 yaml/signer/signer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaml/signer/signer.go b/yaml/signer/signer.go
index 99d46fc..fc0bc50 100644
--- a/yaml/signer/signer.go
+++ b/yaml/signer/signer.go
@@ -54,7 +54,7 @@ func SignUpdate(data []byte, key Key) ([]byte, error) {
 		if r.Kind != yaml.KindSignature {
 			buf.WriteString("---")
 			buf.WriteByte('\n')
-			buf.Write(r.Data)
+			writeData(&buf, r.Data)
 		}
 	}
 
@@ -135,7 +135,7 @@ func upsert(res []*yaml.RawResource, hmac string) []byte {
 		if r.Kind != yaml.KindSignature {
 			buf.WriteString("---")
 			buf.WriteByte('\n')
-			buf.Write(r.Data)
+			writeData(&buf, r.Data)
 		}
 	}
 	buf.WriteString("---")
@@ -149,3 +149,11 @@ func upsert(res []*yaml.RawResource, hmac string) []byte {
 	buf.WriteByte('\n')
 	return buf.Bytes()
 }
+
+// helper function writes the raw data of a resource. The yaml
+// file is read line by line, and the carriage return before a
+// newline is removed. A line of the raw data that ends with a
+// carriage return is therefore written with another one.
+func writeData(buf *bytes.Buffer, data []byte) {
+	buf.Write(bytes.Replace(data, []byte("\r\n"), []byte("\r\r\n"), -1))
+}
-- 
2.43.0


From 84111ff0c83aeea3b6b25326bf9db29d8c286935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:23 +0000
Subject: [PATCH 53/53] fix: round the cpu limit to the nearest thousandth

The product of a decimal number and 1000 is not exact, so that a limit
of 1.001 was compiled to 1000.
---
 yaml/compiler/convert.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 6d875e2..6b6b96a 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"math"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -96,5 +97,7 @@ func toCPUMillis(f float64) int64 {
 	if f > 0 {
 		f *= 1000
 	}
-	return int64(f)
+	// the product is not exact (1.001 * 1000 is less than
+	// 1001) and is rounded to the nearest number.
+	return int64(math.Round(f))
 }
-- 
2.43.0


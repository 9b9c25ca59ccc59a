From 0d895ab95a289087ef644851b9c9054e2c36be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 01/57] fix: list append/prepend must not share storage with
 the original list

---
 collections/implementation/base_helper.go | 12 ++++--------
 collections/implementation/list_helper.go | 12 +++++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 9d1a02c..fa7ba05 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -31,20 +31,16 @@ func (bh BaseHelper) NewList(items ...interface{}) baseIList {
 			}
 		}
 	}
-	newList := bh.CreateList(0, len(items))
-	for i := range items {
-		newList = newList.Append(items[i])
-	}
-	return newList
+	return bh.CreateList().Append(items...)
 }
 
 // NewStringList creates a new IGenericList from supplied arguments.
 func (bh BaseHelper) NewStringList(items ...string) baseIList {
-	newList := bh.CreateList(0, len(items))
+	values := make([]interface{}, len(items))
 	for i := range items {
-		newList = newList.Append(items[i])
+		values[i] = items[i]
 	}
-	return newList
+	return bh.CreateList().Append(values...)
 }
 
 // AsList converts object to IGenericList object. It panics if conversion is impossible.
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..9953e36 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -17,14 +17,20 @@ type ListHelper struct {
 
 // Add adds elements at the end of the supplied list.
 func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) baseIList {
+	// The result is always a new list, it must not share its underlying array with the supplied list
+	// and the arguments supplied by the caller must be left untouched.
 	array := list.AsArray()
+	result := make([]interface{}, 0, len(array)+len(objects))
+	if !prepend {
+		result = append(result, array...)
+	}
 	for i := range objects {
-		objects[i] = lh.Convert(objects[i])
+		result = append(result, lh.Convert(objects[i]))
 	}
 	if prepend {
-		array, objects = objects, array
+		result = append(result, array...)
 	}
-	return lh.AsList(append(array, objects...))
+	return lh.AsList(result)
 }
 
 // Clone returns a copy of the supplied list.
-- 
2.43.0


From 7f46ed93b10d616b380152e5feedbeb4f88defb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 02/57] fix: cloning a list must return a distinct copy of its
 nested elements

---
 collections/implementation/list_helper.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 9953e36..6e8c5b5 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -35,7 +35,19 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 
 // Clone returns a copy of the supplied list.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	source := list.AsArray()
+	result := lh.CreateList(len(source))
+	for i := range source {
+		value := lh.Convert(source[i])
+		switch item := value.(type) {
+		case baseIDict:
+			value = item.Clone()
+		case baseIList:
+			value = item.Clone()
+		}
+		result.AsArray()[i] = value
+	}
+	return result
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From dc9a2d0c18b3134cbaa3df4ac14181b364fefd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 03/57] fix: merging dictionaries must not alter the nested
 dictionaries of the sources

---
 collections/implementation/dict_helper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..ef1df39 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -152,7 +152,12 @@ func (dh DictHelper) deepMerge(target baseIDict, source baseIDict) baseIDict {
 		sourceValueDict, sourceValueIsDict := sourceValue.(baseIDict)
 
 		if sourceValueIsDict && targetValueIsDict {
-			targetMap[key] = dh.deepMerge(targetValueDict, sourceValueDict)
+			// The nested dictionary may come from another source, so we merge into a copy to leave the sources untouched
+			nested := targetValueDict.Create(targetValueDict.Len())
+			for nestedKey, nestedValue := range targetValueDict.AsMap() {
+				nested.AsMap()[nestedKey] = nestedValue
+			}
+			targetMap[key] = dh.deepMerge(nested, sourceValueDict)
 		}
 	}
 
-- 
2.43.0


From 5ca4bd0d15b7a7ec5990fef119cc217873effb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 04/57] fix: pluck must return the extracted values

---
 template/extra_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_data.go b/template/extra_data.go
index df47fb3..a9ed3ea 100644
--- a/template/extra_data.go
+++ b/template/extra_data.go
@@ -546,7 +546,7 @@ func pluck(key interface{}, dicts ...iDictionary) iList {
 	result := collections.CreateList(0, len(dicts))
 	for i := range dicts {
 		if dicts[i].Has(key) {
-			result.Append(dicts[i].Get(key))
+			result = result.Append(dicts[i].Get(key))
 		}
 	}
 	return result
-- 
2.43.0


From bb5d70bcb5e9ce2b7d9d7fdeb9b46f313ab5487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 05/57] fix: printing a terraform file must not panic

---
 template/template_process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..542432a 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -53,7 +53,8 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		tempFolder := must(os.MkdirTemp(t.tempFolder, base)).(string)
+		defer os.RemoveAll(tempFolder)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
-- 
2.43.0


From 3cf8eb7a5dc574c6729f242d3b534726e036f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 06/57] fix: Template.Merge must merge the values in the
 context

---
 template/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template.go b/template/template.go
index 070ebb8..6784787 100644
--- a/template/template.go
+++ b/template/template.go
@@ -346,7 +346,7 @@ func (t *Template) Add(key string, value interface{}) {
 // Merge allows adding multiple values to the template context.
 // The context and values must both be dictionary to use that function, otherwise, it will panic.
 func (t *Template) Merge(values interface{}) {
-	collections.AsDictionary(t.context).Add(key, collections.AsDictionary(values))
+	collections.AsDictionary(t.context).Merge(collections.AsDictionary(values))
 }
 
 // Context returns the context of the Template as a collections.IDictionary.
-- 
2.43.0


From dabdd14c6f05115bf4b894fa560995d36396d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 07/57] fix: retrying a template after an error must not alter
 the shared context

---
 template/template_error_handler.go | 3 ++-
 template/template_handler.go       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..baaacba 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -19,6 +19,7 @@ type errorHandler struct {
 	Code     string   // Modified code
 	Lines    []string // Original source code as an array of string (one per line)
 	Try      int      // The current evaluation try
+	Clone    bool     // Indicates if the evaluation must be done on a copy of the context
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
@@ -163,7 +164,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if err != nil {
 				InternalLog.Infof("Retrying %d with:\n%s", t.Try, color.HiBlackString(String(newCode).AddLineNumber(0).Str()))
 			}
-			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, false, nil)
+			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Clone, nil)
 			if err2 != nil {
 				if err != nil {
 					if err.Error() == err2.Error() {
diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..a67062c 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -141,6 +141,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		Code:     originalContent,
 		Lines:    originalSourceLines,
 		Try:      retryCount,
+		Clone:    cloneContext,
 	}
 
 	topCall := th.Lines == nil
-- 
2.43.0


From fd581cc194726f848eadaed4edb9060c36bd2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 08/57] fix: error recovery must not panic or hide an error

---
 template/template_error_handler.go | 34 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index baaacba..0d3910b 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -52,6 +52,8 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		}
 
 		errorText := color.RedString(errText)
+		// The code replacing a faulty line must not add extra lines
+		faultyReplacement := fmt.Sprintf("ERROR %s", strings.ReplaceAll(errText, "\n", " "))
 
 		if matches[tagFile] != t.Filename {
 			// An error occurred in an included external template file, we cannot try to recuperate
@@ -60,18 +62,28 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if fileContent, err := os.ReadFile(matches[tagFile]); err != nil {
 				line = fmt.Sprintf("Unable to read file: %v", err)
 			} else {
-				line = String(fileContent).Lines()[toInt(matches[tagLine])-1].Str()
+				line = lineAt(String(fileContent).Lines().Strings(), toInt(matches[tagLine])-1)
 			}
 			return "", true, fmt.Errorf("%s %w in: %s", color.WhiteString(t.Filename), err, color.HiBlackString(line))
 		}
 
+		if faultyLine < 0 || faultyLine >= len(lines) {
+			// The reported line is not part of the evaluated code, we cannot try to find further errors
+			return "", true, err
+		}
+
 		currentLine := String(lines[faultyLine])
+		if faultyColumn >= currentLine.Len() {
+			faultyColumn = 0
+		}
 		if faultyColumn != 0 && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
 			// Sometime, the error is not reporting the exact column, we move 1 char forward to get the real problem
 			faultyColumn++
 		}
 
-		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(t.Lines[faultyLine]))
+		// The line could be missing from the source since the evaluated code may have more lines
+		sourceLine := lineAt(t.Lines, faultyLine)
+		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(sourceLine))
 		var logMessage string
 		if key != "" {
 			// Missing key and we disabled the <no value> mode
@@ -128,7 +140,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		} else if message != "" {
 			logMessage = fmt.Sprintf("User defined error: %s", message)
 			errorText = color.RedString(message)
-			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
+			lines[faultyLine] = faultyReplacement
 		} else if code != "" {
 			context := String(currentLine).SelectContext(faultyColumn, t.LeftDelim(), t.RightDelim())
 			logMessage = fmt.Sprintf("Execution error: %s Code = %s Context = %s", err, color.HiBlackString(code), color.HiBlackString(context.Str()))
@@ -136,7 +148,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			errorText = color.RedString("%s (%s)", errText, code)
 			if context == "" {
 				// We have not been able to find the current context, we wipe the erroneous line
-				lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
+				lines[faultyLine] = faultyReplacement
 			} else {
 				lines[faultyLine] = currentLine.Replace(context.Str(), runError).Str()
 			}
@@ -145,9 +157,9 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			lines[faultyLine] = currentLine.Replace(value, fmt.Sprintf(`"<UNDEF %s>"`, value)).Str()
 		} else {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
-			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
+			lines[faultyLine] = faultyReplacement
 		}
-		if currentLine.Contains(runError) || strings.Contains(code, undefError) {
+		if currentLine.Contains(runError) && !strings.Contains(sourceLine, runError) || strings.Contains(code, undefError) {
 			// The erroneous line has already been replaced, we do not report the error again
 			err, errorText = nil, ""
 			InternalLog.Debugf("Ignored error %s", logMessage)
@@ -158,7 +170,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		if lines[faultyLine] != currentLine.Str() || err != nil && strings.Contains(err.Error(), noValueError) {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
@@ -183,6 +195,14 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 	return "", true, err
 }
 
+// lineAt returns the line at the given position or an empty string if there is no such line
+func lineAt(lines []string, index int) string {
+	if index < 0 || index >= len(lines) {
+		return ""
+	}
+	return lines[index]
+}
+
 var (
 	errorParsingExpressions []*regexp.Regexp
 	linePrefix              = `template: ` + p(tagLocation, p(tagFile, `.*?`)+`:`+p(tagLine, `\d+`)+`(:`+p(tagCol, `\d+`)+`)?: `)
-- 
2.43.0


From 54dff6a2f32f2e5e5af15d05e57f7217daf8c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 09/57] fix: unnamed values supplied with --var must be
 available through ARGS

---
 context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 20c0620..21de69f 100644
--- a/context.go
+++ b/context.go
@@ -86,7 +86,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 					content = nv.value
 				}
 
-				if nv.name == "" && isFileErr {
+				if nv.name == "" && !nv.unnamed && isFileErr {
 					if !nv.required {
 						loadErr = nil
 					}
@@ -152,6 +152,9 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 	}
 
 	if len(unnamed) > 0 {
+		if context == nil {
+			context = collections.CreateDictionary()
+		}
 		context.Set("ARGS", unnamed)
 	}
 	return context, nil
-- 
2.43.0


From df4d8d1dffd2a3e99e30e7e5046f7b3981aa5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 10/57] fix: searching files must terminate on symbolic link
 loops and return each file once

---
 utils/io.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 8727828..d09e6dd 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -23,9 +23,19 @@ func FindFiles(folder string, recursive, followLinks bool, patterns ...string) (
 // FindFilesMaxDepth returns the list of the files matching the array of patterns
 func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns ...string) ([]string, error) {
 	visited := map[string]bool{}
+	canonical := func(folder string) string {
+		folder, _ = filepath.Abs(folder)
+		if followLinks {
+			if real, err := filepath.EvalSymlinks(folder); err == nil {
+				return real
+			}
+		}
+		return folder
+	}
 	var walker func(folder string) ([]string, error)
 	walker = func(folder string) ([]string, error) {
 		results := must(findFiles(folder, patterns...)).([]string)
+		visited[canonical(folder)] = true
 		folder, _ = filepath.Abs(folder)
 		if maxDepth == 0 {
 			return results, nil
@@ -36,7 +46,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 				return nil
 			}
 			if info.IsDir() {
-				visited[path] = true
+				visited[canonical(path)] = true
 				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
 				if depth > maxDepth {
 					return filepath.SkipDir
@@ -59,7 +69,7 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 					link = filepath.Join(filepath.Dir(path), link)
 				}
 				link, _ = filepath.Abs(link)
-				if !visited[link] {
+				if !visited[canonical(link)] {
 					// Check if we already visited that link to avoid recursive loop
 					linkFiles, err := walker(link)
 					if err != nil {
@@ -72,7 +82,18 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 		})
 		return results, nil
 	}
-	return walker(folder)
+	files, err := walker(folder)
+
+	// A file may match several patterns and its folder may be reached through several links, but it must be returned only once
+	found := make(map[string]bool, len(files))
+	results := files[:0]
+	for _, file := range files {
+		if key := filepath.Join(canonical(filepath.Dir(file)), filepath.Base(file)); !found[key] {
+			found[key] = true
+			results = append(results, file)
+		}
+	}
+	return results, err
 }
 
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
-- 
2.43.0


From 40ae1f81f98978498cb7ca87da71b74e606d7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 11/57] fix: files in folders having special characters must be
 found

---
 utils/io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/io.go b/utils/io.go
index d09e6dd..6e1321d 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -98,6 +98,10 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
+	if filepath.Separator == '/' {
+		// The special characters that are part of the folder name must not be considered as a pattern
+		folder = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(folder)
+	}
 	var matches []string
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
-- 
2.43.0


From bc7f99d433f300e1150b0d072f103ff2b31fa877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 12/57] fix: a file matched more than once must be processed
 only once

---
 main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 67cda35..d60fe8f 100644
--- a/main.go
+++ b/main.go
@@ -283,13 +283,25 @@ func runGotemplate() (exitCode int) {
 	}
 
 	*templates = append(utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...), *templates...)
-	for i, template := range *templates {
+	alreadyListed := make(map[string]bool)
+	allTemplates := make([]string, 0, len(*templates))
+	for _, template := range *templates {
 		if file, err := filepath.Rel(*sourceFolder, template); err == nil {
 			if _, err = os.Stat(file); err == nil {
-				(*templates)[i] = file
+				template = file
 			}
 		}
+		if _, err := os.Stat(template); err == nil {
+			// A file must be processed only once even if it is supplied explicitly and matches a pattern
+			if file := filepath.Clean(template); alreadyListed[file] {
+				continue
+			} else {
+				alreadyListed[file] = true
+			}
+		}
+		allTemplates = append(allTemplates, template)
 	}
+	*templates = allTemplates
 	*templates, err = exclude(*templates, *excludedPatterns)
 	if err != nil {
 		errors.Print(err)
-- 
2.43.0


From 6d65861a8bd1c451df5ac081232e7c44687851a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 13/57] fix: integral values outside of the int64 range must
 not overflow

---
 json/json.go               | 4 ++--
 template/math_utilities.go | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/json/json.go b/json/json.go
index 6ebaa08..7c7b233 100644
--- a/json/json.go
+++ b/json/json.go
@@ -67,8 +67,8 @@ func transformElement(source interface{}) interface{} {
 		}
 		source = value
 	} else if value, ok := source.(float64); ok {
-		// json.Unmarshal returns all int values as float64
-		if math.Floor(value) == value {
+		// json.Unmarshal returns all int values as float64 (those that are outside of the int range must be kept as is)
+		if math.Floor(value) == value && math.Abs(value) < 1<<63 {
 			source = int(value)
 		}
 	}
diff --git a/template/math_utilities.go b/template/math_utilities.go
index 86df30e..6c35f2e 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -127,7 +127,11 @@ func convertArgs(arg1 interface{}, args ...interface{}) (result collections.IGen
 }
 
 func simplify(value float64) interface{} {
-	return iif(math.Floor(value) == value, int64(value), value)
+	if math.Floor(value) == value && math.Abs(value) < 1<<63 {
+		// Values that are outside of the int64 range must be kept as float64
+		return int64(value)
+	}
+	return value
 }
 
 func compareNumerics(values []interface{}, useMinFunc bool) interface{} {
-- 
2.43.0


From 5ffd00d09d7301f38f2e2e2977ea7b853bca2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 14/57] fix: independent templates must be usable concurrently

---
 template/razor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..5fba669 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,6 +15,10 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
+
+	// The razor transformation relies on global state, only one transformation can be performed at a time
+	razorMutex.Lock()
+	defer razorMutex.Unlock()
 	t.ensureInit()
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
@@ -45,6 +50,8 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	return content, true
 }
 
+var razorMutex sync.Mutex
+
 var highlight = color.New(color.BgHiBlack, color.FgBlack).SprintFunc()
 
 // This is indented to simplify the following regular expression for patterns that are repeated several times
-- 
2.43.0


From cdb2d7dbaa0dc01251c33d5f15d74b530c3bbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 15/57] fix: overwrite mode must be on by default when the
 target folder differs from the source folder

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index d60fe8f..51880d5 100644
--- a/main.go
+++ b/main.go
@@ -233,6 +233,7 @@ func runGotemplate() (exitCode int) {
 
 	// If target folder is not equal to source folder, we run in overwrite mode by default
 	*overwrite = *overwrite || *sourceFolder != *targetFolder
+	optionsSet[template.Overwrite] = *overwrite
 
 	stat, _ := os.Stdin.Stat()
 	if (stat.Mode()&os.ModeCharDevice) == 0 && os.Getenv(envDisableStdinCheck) == "" {
-- 
2.43.0


From c289008e1c6c6ba94a9b2523711836f30044bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 16/57] fix: slicing outside of the limits must not be an error

---
 template/slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/template/slice.go b/template/slice.go
index de7ed0e..232e763 100644
--- a/template/slice.go
+++ b/template/slice.go
@@ -122,8 +122,8 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 	}
 
 	// For slice operation, there is no error if the index are of limit
-	end = int(min(end, length).(int64))
-	begin = int(max(begin, 0).(int64))
+	end = int(min(max(end, 0), length).(int64))
+	begin = int(min(max(begin, 0), length).(int64))
 
 	if value.Kind() == reflect.String {
 		// String slices are returned as string instead of array of runes
@@ -134,10 +134,6 @@ func sliceList(value reflect.Value, args ...interface{}) (result interface{}, er
 		return result, nil
 	}
 
-	if begin > length {
-		// Begin is after the end
-		return collections.AsList(value.Interface()).Create(), nil
-	}
 	results := collections.AsList(value.Interface()).Create(end - begin)
 	for i := range results.AsArray() {
 		results.Set(i, value.Index(i+begin).Interface())
-- 
2.43.0


From 2f57d42d981e9b3629297178d425d6c87b7c6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 17/57] fix: removing empty elements must remove empty
 dictionaries whatever their type

---
 collections/implementation/list_helper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 6e8c5b5..95335cf 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -207,6 +207,8 @@ func (lh ListHelper) RemoveEmpty(list baseIList) baseIList {
 		switch item := item.(type) {
 		case baseIList:
 			isEmpty = item.Len() == 0
+		case baseIDict:
+			isEmpty = item.Len() == 0
 		default:
 			isEmpty = item == nil || fmt.Sprint(item) == ""
 		}
-- 
2.43.0


From b02ddb00b0e0fc2484902386a0dbb64a375fb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 18/57] fix: removing elements from a list must not alter the
 supplied indexes

---
 collections/implementation/list_helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index 95335cf..a0b7cc7 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -184,12 +184,14 @@ func (lh ListHelper) Intersect(list baseIList, values ...interface{}) baseIList
 
 // Remove returns a new list without the element specified.
 func (lh ListHelper) Remove(list baseIList, indexes ...int) baseIList {
+	positions := make([]int, len(indexes))
 	for i, index := range indexes {
 		if index < 0 {
-			indexes[i] += list.Len()
+			index += list.Len()
 		}
+		positions[i] = index
 	}
-	discard := collections.AsList(indexes)
+	discard := collections.AsList(positions)
 	target := list.Create(0, list.Len())
 	for i := range list.AsArray() {
 		if !discard.Contains(i) {
-- 
2.43.0


From 39557f57a2bd6400521ee1e145cd8a555f31ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 19/57] fix: number ranges must start at the given value, skip
 no number and terminate

---
 template/extra_sprig.go    |  1 -
 template/math_utilities.go | 39 +++++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 4b21926..826a4a7 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -32,7 +32,6 @@ var sprigFuncs funcTableMap
 
 var sprigFuncMap = sprig.GenericFuncMap()
 var sprigDef = sprigFuncMap["default"].(func(interface{}, ...interface{}) interface{})
-var sprigRound = sprigFuncMap["round"].(func(a interface{}, p int, r_opt ...float64) float64)
 
 func (t *Template) addSprigFuncs() {
 	if sprigFuncs == nil {
diff --git a/template/math_utilities.go b/template/math_utilities.go
index 6c35f2e..3e31779 100644
--- a/template/math_utilities.go
+++ b/template/math_utilities.go
@@ -166,15 +166,12 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 
 	var start, stop float64
 	var step float64 = 1
-	var precision int
 	switch len(params) {
 	case 1:
 		start = float64(iif(limit, 1, 0).(int))
 		stop = toFloat(params[0])
 	case 3:
 		step = math.Abs(toFloat(params[2]))
-		_, frac := collections.Split2(fmt.Sprintf("%g", step), ".")
-		precision = len(frac)
 		fallthrough
 	case 2:
 		start = toFloat(params[0])
@@ -185,16 +182,44 @@ func generateNumericArray(limit bool, params ...interface{}) (result collections
 	if step == 0 {
 		return nil, fmt.Errorf("step cannot be zero")
 	}
-	array := make([]interface{}, 0, int64(math.Abs(stop-start)))
+	if length := math.Abs(stop - start); math.IsNaN(length) || math.IsInf(length, 0) {
+		return nil, fmt.Errorf("range must be finite")
+	}
+
+	// The values cannot have more decimals than the start and the step
+	precision := decimals(start)
+	if stepDecimals := decimals(step); stepDecimals > precision {
+		precision = stepDecimals
+	}
+
+	array := make([]interface{}, 0)
 	forward := stop > start
 	if !forward {
 		step = -step
 	}
-	for current := start; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); {
-		current = sprigRound(current, precision)
+	current := start
+	for i := 1; (forward && current <= stop || !forward && current >= stop) && (limit || current != stop); i++ {
 		array = append(array, simplify(current))
-		current += step
+		current = roundDecimals(start+float64(i)*step, precision)
 	}
 	result = collections.AsList(array)
 	return
 }
+
+// decimals returns the number of decimals of a number.
+func decimals(value float64) int {
+	_, frac := collections.Split2(strconv.FormatFloat(value, 'f', -1, 64), ".")
+	return len(frac)
+}
+
+// roundDecimals rounds the value to the specified number of decimals (unless it exceeds the precision of a float).
+func roundDecimals(value float64, precision int) float64 {
+	if precision > 15 {
+		return value
+	}
+	factor := math.Pow10(precision)
+	if result := math.Round(value*factor) / factor; !math.IsInf(result, 0) {
+		return result
+	}
+	return value
+}
-- 
2.43.0


From d3c38844d562e0a433ebbe4824cf29b4ac619a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 20/57] fix: lists and dictionaries of different
 implementations must be compared on their content

---
 collections/implementation/list_helper.go | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index a0b7cc7..db56156 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -56,7 +56,7 @@ func (lh ListHelper) Contains(list baseIList, strict bool, values ...interface{}
 	for _, value := range values {
 		match := false
 		for _, item := range source {
-			if strict && value == item || !strict && fmt.Sprint(value) == fmt.Sprint(item) {
+			if lh.same(value, item, strict) {
 				match = true
 				break
 			}
@@ -69,14 +69,32 @@ func (lh ListHelper) Contains(list baseIList, strict bool, values ...interface{}
 	return len(source) > 0
 }
 
+// same determines if two elements are considered as equal. Lists and dictionaries are compared on their
+// content, whatever their implementation.
+func (lh ListHelper) same(value1, value2 interface{}, strict bool) bool {
+	value1, value2 = lh.normalize(value1), lh.normalize(value2)
+	if strict {
+		return reflect.DeepEqual(value1, value2)
+	}
+	return fmt.Sprint(value1) == fmt.Sprint(value2)
+}
+
+// normalize converts lists and dictionaries to the implementation of the current helper (at any depth).
+func (lh ListHelper) normalize(value interface{}) interface{} {
+	switch value.(type) {
+	case baseIList, baseIDict:
+		if native, err := collections.MarshalGo(value); err == nil {
+			return lh.Convert(native)
+		}
+	}
+	return value
+}
+
 // Find returns the position of the searched element in the list.
 func (lh ListHelper) Find(list baseIList, element interface{}, strict bool) baseIList {
 	result := lh.NewList()
-	if !strict {
-		element = fmt.Sprint(element)
-	}
 	for i, value := range list.AsArray() {
-		if strict && element == value || !strict && element == fmt.Sprint(value) {
+		if lh.same(element, value, strict) {
 			result = result.Append(i)
 		}
 	}
-- 
2.43.0


From 69a8ed0f6e4f44610359d091cc7759872cddccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 21/57] fix: a file operation that fails must not abort the
 processing of the remaining files

---
 template/template_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index a67062c..fb12151 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -108,14 +108,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	info, err := os.Stat(template)
+	if err != nil {
+		return
+	}
+	mode := info.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
-- 
2.43.0


From 7d7bc564cfc90d82f9875fe2a60231b8c1268a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 22/57] fix: a file that forces its output to be printed must
 not affect the following calls

---
 template/template_handler.go | 9 +++++++++
 template/template_process.go | 1 +
 2 files changed, 10 insertions(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index fb12151..24b7996 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -40,10 +40,19 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 	return resultFiles, errors.AsError()
 }
 
+func (t *Template) restorePrint(print bool) {
+	if t.options[OutputStdout] != print {
+		t.options[OutputStdout] = print
+	}
+}
+
 func (t *Template) processTemplate(template, sourceFolder, targetFolder string, handler CustomHandler) (resultFile string, err error) {
 	isCode := t.IsCode(template)
 	var content string
 
+	// The file may change this option at runtime, so we restore it back once the file is processed
+	defer t.restorePrint(t.options[OutputStdout])
+
 	if fileContent, fileError := os.ReadFile(template); fileError == nil {
 		content = string(fileContent)
 		isCode = false
diff --git a/template/template_process.go b/template/template_process.go
index 542432a..9fd70b0 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -36,6 +36,7 @@ const (
 
 // ProcessContent loads and runs the file template.
 func (t *Template) ProcessContent(content, source string) (result string, err error) {
+	defer t.restorePrint(t.options[OutputStdout])
 	result, _, err = t.processContentInternal(content, source, nil, 0, true, nil)
 	return
 }
-- 
2.43.0


From 90d98f44acc405baeb067e9a0b6dd39011dbbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 23/57] fix: a variable whose value contains a colon must keep
 its name

---
 context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 21de69f..d16421e 100644
--- a/context.go
+++ b/context.go
@@ -5,12 +5,16 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"regexp"
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/template"
 )
 
+// Matches the name of a variable in an expression name=value
+var reVarName = regexp.MustCompile(`^[A-Za-z_]\w*$`)
+
 func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string, ignoreMissingFiles bool) (collections.IDictionary, error) {
 	var context collections.IDictionary
 
@@ -37,7 +41,15 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 
 	for i := range namedVars {
 		data := collections.CreateDictionary().AsMap()
-		if err := collections.ConvertData(namedVars[i], &data); err != nil {
+		err := collections.ConvertData(namedVars[i], &data)
+		if name, value := collections.Split2(namedVars[i], "="); err == nil && value != "" && reVarName.MatchString(name) {
+			if _, found := data[name]; !found {
+				// The name has been considered as being part of a key (i.e. name={"key": value} is valid yaml)
+				nameValuePairs = append(nameValuePairs, fileDef{name: name, value: value})
+				continue
+			}
+		}
+		if err != nil {
 			var fd fileDef
 			fd.name, fd.value = collections.Split2(namedVars[i], "=")
 			if fd.value == "" {
-- 
2.43.0


From 492e9c1ff66bb72b12729d5708ec8f5fdfe1be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:51 +0000
Subject: [PATCH 24/57] fix: razor expressions must be converted with custom
 delimiters

---
 template/razor.go               | 22 +++++++++++++++++-----
 template/razor_repl_assign.go   |  4 ++--
 template/razor_repl_autowrap.go |  3 ++-
 template/razor_repl_expr.go     | 13 ++++++++++---
 template/razor_repl_literal.go  |  5 +++--
 5 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 5fba669..5e0cff6 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -29,7 +29,7 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 		if strings.HasSuffix(ignoredExpr, "*") || strings.HasSuffix(ignoredExpr, "+") {
 			ignoredExpr += `?` // Ensure that the regex is not greedy
 		}
-		ignoredExpr = t.RazorDelim() + ignoredExpr + `\b` // Stop at the end of the expression
+		ignoredExpr = regexp.QuoteMeta(t.RazorDelim()) + ignoredExpr + `\b` // Stop at the end of the expression
 		content = regexp.MustCompile(ignoredExpr).ReplaceAllFunc(content, func(match []byte) []byte {
 			return []byte(strings.Replace(string(match), t.RazorDelim(), literalAt, 1))
 		})
@@ -169,12 +169,22 @@ func (t *Template) ensureInit() {
 	if _, ok := replacementsInit[delimiters]; !ok {
 		// We must ensure that search and replacement expression are compatible with the set of delimiters
 		replacements := make([]replacement, 0, len(expressions))
+		delimitersRegex := strings.NewReplacer(
+			"{{", regexp.QuoteMeta(t.LeftDelim()),
+			"}}", regexp.QuoteMeta(t.RightDelim()),
+			"@", regexp.QuoteMeta(t.RazorDelim()),
+		)
+		escape := func(s string) string { return strings.Replace(s, "$", "$$", -1) }
+		replacer := strings.NewReplacer(
+			"{{", escape(t.LeftDelim()),
+			"}}}", "}"+escape(t.RightDelim()), // The first bracket closes a group (i.e. ${reduce2}}})
+			"}}", escape(t.RightDelim()),
+			"@", escape(t.RazorDelim()),
+		)
 		for _, expr := range expressions {
 			comment := expr[0].(string)
-			re := strings.Replace(expr[1].(string), "@", regexp.QuoteMeta(t.RazorDelim()), -1)
-			re = strings.Replace(re, "{{", regexp.QuoteMeta(t.LeftDelim()), -1)
-			re = strings.Replace(re, "}}", regexp.QuoteMeta(t.RightDelim()), -1)
-			replace := strings.Replace(strings.Replace(strings.Replace(expr[2].(string), "{{", t.LeftDelim(), -1), "}}", t.RightDelim(), -1), "@", t.RazorDelim(), -1)
+			re := expr[1].(string)
+			replace := replacer.Replace(expr[2].(string))
 			var exprParser replacementFunc
 			if len(expr) >= 4 {
 				exprParser = expr[3].(replacementFunc)
@@ -197,6 +207,8 @@ func (t *Template) ensureInit() {
 			}
 
 			for i := range subExpressions {
+				// The custom classes and the generic expressions may also refer to the delimiters
+				subExpressions[i] = delimitersRegex.Replace(subExpressions[i])
 				re := regexp.MustCompile(subExpressions[i])
 				replacements = append(replacements, replacement{comment, subExpressions[i], replace, re, exprParser, t.delimiters})
 			}
diff --git a/template/razor_repl_assign.go b/template/razor_repl_assign.go
index f94df78..56cb76c 100644
--- a/template/razor_repl_assign.go
+++ b/template/razor_repl_assign.go
@@ -17,7 +17,7 @@ func assignExpressionAcceptError(repl replacement, match string) string {
 
 func assignExpressionInternal(repl replacement, match string, acceptError bool) string {
 	matches, _ := reutils.MultiMatch(match, repl.re)
-	tp := matches["type"]
+	tp := strings.Replace(matches["type"], repl.delimiters[2], "@", 1)
 	id := matches["id"]
 	expr := matches["expr"]
 	assign := matches["assign"]
@@ -54,7 +54,7 @@ func assignExpressionInternal(repl replacement, match string, acceptError bool)
 	}
 
 	var err error
-	if expr, err = expressionParserInternal(exprRepl, expr, true, internal); err != nil && !acceptError {
+	if expr, err = expressionParserInternal(repl.subExpression(), expr, true, internal); err != nil && !acceptError {
 		return match
 	}
 
diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index fc37425..f52bafb 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -17,7 +17,8 @@ func autoWrap(repl replacement, match string) string {
 		return match
 	}
 	after := context[len(args):]
-	return fmt.Sprintf("@%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+	return fmt.Sprintf("%s%s%sjoin(\"%s\", formatList(\"%s%%v%s\", %s)",
+		repl.delimiters[2],
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 2615257..c098c8c 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -63,7 +63,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		// We first protect strings declared in the expression
 		protected, includedStrings := String(expression).Protect()
 		for i := range includedStrings {
-			includedStrings[i] = includedStrings[i].Replace("@", literalAt)
+			includedStrings[i] = includedStrings[i].Replace(repl.delimiters[2], literalAt)
 		}
 
 		// We transform the expression into a valid go statement
@@ -104,7 +104,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
 		for i := range values {
-			if values[i], err = expressionParserInternal(exprRepl, values[i], true, true); err != nil {
+			if values[i], err = expressionParserInternal(repl.subExpression(), values[i], true, true); err != nil {
 				return match, err
 			}
 		}
@@ -114,7 +114,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 	}
 
 	if selectExpr := matches["selection"]; selectExpr != "" {
-		if selectExpr, err = expressionParserInternal(exprRepl, selectExpr, true, true); err != nil {
+		if selectExpr, err = expressionParserInternal(repl.subExpression(), selectExpr, true, true); err != nil {
 			return match, err
 		}
 		repl.replace = strings.Replace(repl.replace, "${selection}", selectExpr, -1)
@@ -160,6 +160,13 @@ var exprRepl = replacement{
 	replace: `${expr}`,
 }
 
+// subExpression returns the replacement used to convert a part of an expression matched by this replacement.
+func (repl replacement) subExpression() replacement {
+	result := exprRepl
+	result.delimiters = repl.delimiters
+	return result
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
diff --git a/template/razor_repl_literal.go b/template/razor_repl_literal.go
index 58ee78b..5f51e30 100644
--- a/template/razor_repl_literal.go
+++ b/template/razor_repl_literal.go
@@ -26,9 +26,10 @@ func protectMultiLineStrings(repl replacement, match string) string {
 var longStrings []string
 
 func protectEmail(repl replacement, match string) string {
-	if match[0] == '@' || match[0] == '#' {
+	delim := repl.delimiters[2]
+	if strings.HasPrefix(match, delim) || match[0] == '#' {
 		// This is not an email
 		return match
 	}
-	return strings.Replace(match, "@", "@@", 1)
+	return strings.Replace(match, delim, delim+delim, 1)
 }
-- 
2.43.0


From aa0b1360ccb20ab8e2c7294e3b86698f04f70c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:03 +0000
Subject: [PATCH 25/57] fix: an operand containing a star must not turn a
 multiplication into a power

---
 template/razor_expr.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/template/razor_expr.go b/template/razor_expr.go
index 3521bc4..f47fe45 100644
--- a/template/razor_expr.go
+++ b/template/razor_expr.go
@@ -36,12 +36,14 @@ func nodeValue(node ast.Node) (result string, err error) {
 		if x, err = nodeValueInternal(n.X); err != nil {
 			return
 		}
-		if y, err = nodeValueInternal(n.Y); err != nil {
+		if star, isStar := n.Y.(*ast.StarExpr); isStar && op == "mul" {
+			// This is a special case where the expression contains 2 following *, meaning power instead of mul
+			if y, err = nodeValueInternal(star.X); err == nil {
+				result = fmt.Sprintf("power %s %s", x, y)
+			}
 			return
 		}
-		if op == "mul" && strings.Contains(y, "*") {
-			// This is a special case where the expression contains 2 following *, meaning power instead of mul
-			result = fmt.Sprintf("power %s %s", x, strings.Replace(y, "*", "", -1))
+		if y, err = nodeValueInternal(n.Y); err != nil {
 			return
 		}
 		result = fmt.Sprintf("%s %s %s", op, x, y)
-- 
2.43.0


From b4e21bb0d8198e02ff55a668df2d3f74b8ca69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:51 +0000
Subject: [PATCH 26/57] fix: separators within the operands of an index must
 not split it

---
 template/razor_repl_expr.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index c098c8c..10674a5 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -95,11 +95,11 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		indexExpr = indexExpression(indexExpr)
 		indexExpr = indexExpr[1 : len(indexExpr)-1]
 
-		sep, slicer, limit2 := ",", "extract", false
-		if strings.Contains(indexExpr, ":") {
-			sep, slicer, limit2 = ":", "slice", true
+		slicer, limit2 := "extract", false
+		values := splitIndex(indexExpr, ',')
+		if slices := splitIndex(indexExpr, ':'); len(slices) > 1 {
+			values, slicer, limit2 = slices, "slice", true
 		}
-		values := strings.Split(indexExpr, sep)
 		if !debugMode && limit2 && len(values) > 2 {
 			InternalLog.Errorf("Only one : character is allowed in slice expression: %s", match)
 		}
@@ -167,6 +167,31 @@ func (repl replacement) subExpression() replacement {
 	return result
 }
 
+// splitIndex splits the index expression on the separator, ignoring those that are within strings, parentheses or brackets.
+func splitIndex(expr string, sep byte) (result []string) {
+	depth, start, quote := 0, 0, byte(0)
+	for i := 0; i < len(expr); i++ {
+		switch c := expr[i]; {
+		case quote != 0:
+			if c == '\\' && quote != '`' {
+				i++
+			} else if c == quote {
+				quote = 0
+			}
+		case c == '"' || c == '`' || c == '\'':
+			quote = c
+		case c == '(' || c == '[' || c == '{':
+			depth++
+		case c == ')' || c == ']' || c == '}':
+			depth--
+		case c == sep && depth == 0:
+			result = append(result, expr[start:i])
+			start = i + 1
+		}
+	}
+	return append(result, expr[start:])
+}
+
 func indexExpression(expr string) string {
 	expr = negativeSlice.ReplaceAllString(expr, "[${index}:0]")
 	expr = strings.Replace(expr, "[]", "[0:-1]", -1)
-- 
2.43.0


From ebc3544db0e9c6faf647b43537e7eb49c7532db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:45 +0000
Subject: [PATCH 27/57] fix: several elements must be extractable from local
 variables as from global ones

---
 template/razor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 5e0cff6..74f3e88 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -127,14 +127,14 @@ var expressions = [][]interface{}{
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables special with slice", `@reduce;(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get $$ "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-	{"Local variables with slice", `@reduce;(?P<expr>(?P<name>[\$\.][\p{L}\d_\.]*)index;)endexpr;`, `{{${reduce1} ${slicer} ${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
+	{"Local variables with slice", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)index;endexpr;`, `{{${reduce1} ${slicer} ${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Global variables - @var", `@reduce;(?P<name>[idSel])endexpr;`, `{{${reduce1} $$.${name} ${reduce2}}}`},
 	{"Context variables special - @.var", `@reduce;\.(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get . "${name}" ${reduce2}}}`},
 	{"Global variables special - @var", `@reduce;(?P<name>[flexible_id])endexpr;`, `{{${reduce1} get $$ "${name}" ${reduce2}}}`},
 	{"Local variables - @$var or @.var", `@reduce;(?P<name>[\$\.][\p{L}\d_\.]*)endexpr;`, `{{${reduce1} ${name} ${reduce2}}}`},
 
 	// Expressions
-	{"Expression @(var)[...]", `@reduce;(?P<expr>\([sp](?P<name>[idSel])[sp]\)index;)endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
+	{"Expression @(var)[...]", `@reduce;\([sp](?P<name>[idSel])[sp]\)index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(var)", `@reduce;\([sp](?P<expr>[idSel])[sp]\)endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(expr)[...]", `@reduce;\([sp](?P<expr>[expr]+)[sp]\)index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Expression @(expr)", `@reduce;\([sp](?P<assign>.*?:= ?)?[sp](?P<expr>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${assign}${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError), replacementFunc(expressionParser)},
-- 
2.43.0


From e4f6e01b45bba04fe2cedd56a2ff6109ce0e5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:07 +0000
Subject: [PATCH 28/57] fix: incomplete JSON must be refused instead of being
 partially loaded as HCL

---
 hcl/hcl.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hcl/hcl.go b/hcl/hcl.go
index d2c61a5..7773309 100644
--- a/hcl/hcl.go
+++ b/hcl/hcl.go
@@ -2,6 +2,8 @@ package hcl
 
 import (
 	"bytes"
+	"encoding/json"
+	"fmt"
 	"os"
 	"reflect"
 
@@ -53,7 +55,14 @@ func Unmarshal(bs []byte, out interface{}) (err error) {
 	defer func() { err = errors.Trap(err, recover()) }()
 	bs = append(bytes.TrimSpace(bs), byte('\n'))
 
-	if err = hcl.Unmarshal(bs, out); err != nil {
+	if bs[0] == '{' && !json.Valid(bs) {
+		// The hcl parser handles such content as json, but it silently accepts (and drops) incomplete elements
+		err = fmt.Errorf("invalid json content")
+	} else {
+		err = hcl.Unmarshal(bs, out)
+	}
+
+	if err != nil {
 		bs = append([]byte("_="), bs...)
 		var temp hclDict
 		if errInternalHcl := hcl.Unmarshal(bs, &temp); errInternalHcl != nil {
-- 
2.43.0


From ec0934747b01a0848114c4eaf93991c77835432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 29/57] fix: the recursive search must work from a symbolic
 link and respect the depth when links are followed

---
 utils/io.go | 88 +++++++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 43 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 6e1321d..8c5b8e8 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -22,7 +22,6 @@ func FindFiles(folder string, recursive, followLinks bool, patterns ...string) (
 
 // FindFilesMaxDepth returns the list of the files matching the array of patterns
 func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns ...string) ([]string, error) {
-	visited := map[string]bool{}
 	canonical := func(folder string) string {
 		folder, _ = filepath.Abs(folder)
 		if followLinks {
@@ -32,57 +31,60 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 		}
 		return folder
 	}
-	var walker func(folder string) ([]string, error)
-	walker = func(folder string) ([]string, error) {
-		results := must(findFiles(folder, patterns...)).([]string)
-		visited[canonical(folder)] = true
-		folder, _ = filepath.Abs(folder)
-		if maxDepth == 0 {
-			return results, nil
-		}
 
-		filepath.Walk(folder, func(path string, info os.FileInfo, err error) error {
-			if info == nil || path == folder {
-				return nil
-			}
-			if info.IsDir() {
-				visited[canonical(path)] = true
-				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
-				if depth > maxDepth {
-					return filepath.SkipDir
-				}
-				files, err := findFiles(path, patterns...)
-				if err != nil {
-					return err
+	// The folders are discovered by increasing depth, so each one is retained at its lowest depth even if it could be reached
+	// through several symbolic links
+	type node struct {
+		path     string
+		depth    int
+		children []*node
+	}
+	root := &node{path: folder}
+	visited := map[string]bool{canonical(folder): true}
+	for queue := []*node{root}; len(queue) > 0; queue = queue[1:] {
+		current := queue[0]
+		if current.depth >= maxDepth {
+			continue
+		}
+		parent, _ := filepath.Abs(current.path)
+		entries, _ := os.ReadDir(parent)
+		for _, entry := range entries {
+			path := filepath.Join(parent, entry.Name())
+			if entry.Type()&os.ModeSymlink != 0 && followLinks {
+				if info, err := os.Stat(path); err != nil || !info.IsDir() {
+					continue
 				}
-				results = append(results, files...)
-				return nil
-			}
-
-			if info.Mode()&os.ModeSymlink != 0 && followLinks {
 				link, err := os.Readlink(path)
 				if err != nil {
-					return err
+					return nil, err
 				}
-
 				if !filepath.IsAbs(link) {
-					link = filepath.Join(filepath.Dir(path), link)
-				}
-				link, _ = filepath.Abs(link)
-				if !visited[canonical(link)] {
-					// Check if we already visited that link to avoid recursive loop
-					linkFiles, err := walker(link)
-					if err != nil {
-						return err
-					}
-					results = append(results, linkFiles...)
+					link = filepath.Join(parent, link)
 				}
+				path = filepath.Clean(link)
+			} else if !entry.IsDir() {
+				continue
+			}
+			if id := canonical(path); !visited[id] {
+				visited[id] = true
+				child := &node{path: path, depth: current.depth + 1}
+				current.children = append(current.children, child)
+				queue = append(queue, child)
 			}
-			return nil
-		})
-		return results, nil
+		}
+	}
+
+	var collect func(*node) ([]string, error)
+	collect = func(current *node) ([]string, error) {
+		files, err := findFiles(current.path, patterns...)
+		for i := 0; i < len(current.children) && err == nil; i++ {
+			var childFiles []string
+			childFiles, err = collect(current.children[i])
+			files = append(files, childFiles...)
+		}
+		return files, err
 	}
-	files, err := walker(folder)
+	files, err := collect(root)
 
 	// A file may match several patterns and its folder may be reached through several links, but it must be returned only once
 	found := make(map[string]bool, len(files))
-- 
2.43.0


From b9609de0f50c1caa76321f533630c47e13252b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 30/57] fix: a folder whose name matches a pattern must not be
 returned as a file

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index 8c5b8e8..6436be7 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -110,7 +110,13 @@ func findFiles(folder string, patterns ...string) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
-		matches = append(matches, files...)
+		for _, file := range files {
+			if info, err := os.Stat(file); err == nil && info.IsDir() {
+				// A folder whose name matches the pattern is not a file
+				continue
+			}
+			matches = append(matches, file)
+		}
 	}
 	return matches, nil
 }
-- 
2.43.0


From 591fff4884ff37027a5d57f66ef50b9b01ca1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 31/57] fix: files must be excluded in folders whose name has
 special characters

---
 utilities.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utilities.go b/utilities.go
index 722d131..f356583 100644
--- a/utilities.go
+++ b/utilities.go
@@ -55,9 +55,18 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 		}
 		var excluded bool
 		for _, pattern := range patterns {
-			pattern, err = filepath.Abs(pattern)
-			if err != nil {
-				return
+			if filepath.IsAbs(pattern) {
+				pattern = filepath.Clean(pattern)
+			} else {
+				var folder string
+				if folder, err = os.Getwd(); err != nil {
+					return
+				}
+				if filepath.Separator == '/' {
+					// The special characters that are part of the folder name must not be considered as a pattern
+					folder = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`).Replace(folder)
+				}
+				pattern = filepath.Join(folder, pattern)
 			}
 			if excluded, err = doublestar.PathMatch(pattern, file); err != nil {
 				return
-- 
2.43.0


From 89654b607ee4fa36f3cf2de98a2b95bf2eff6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:42 +0000
Subject: [PATCH 32/57] fix: relative links must be followed in folders reached
 through a symbolic link

---
 utils/io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index 6436be7..b5d0a0d 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -61,7 +61,11 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 				if !filepath.IsAbs(link) {
 					link = filepath.Join(parent, link)
 				}
-				path = filepath.Clean(link)
+				target := path
+				if path = filepath.Clean(link); canonical(path) != canonical(target) {
+					// The link is relative to the real location of its folder, which is itself reached through a link
+					path = canonical(target)
+				}
 			} else if !entry.IsDir() {
 				continue
 			}
-- 
2.43.0


From 3bbe31198f1682a01326049d2e55084e9d2134f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 33/57] fix: files must be excluded in folders whose name has a
 closing brace

---
 utilities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities.go b/utilities.go
index f356583..3b5a1f0 100644
--- a/utilities.go
+++ b/utilities.go
@@ -64,7 +64,7 @@ func exclude(files []string, patterns []string) (result []string, err error) {
 				}
 				if filepath.Separator == '/' {
 					// The special characters that are part of the folder name must not be considered as a pattern
-					folder = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`).Replace(folder)
+					folder = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `{`, `\{`, `}`, `\}`).Replace(folder)
 				}
 				pattern = filepath.Join(folder, pattern)
 			}
-- 
2.43.0


From 141a7db88223537ac9f337bd28b190b498c2fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:05 +0000
Subject: [PATCH 34/57] fix: a file of a source folder that is a link must be
 processed once and excluded whatever the path used

---
 main.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 51880d5..8f7088d 100644
--- a/main.go
+++ b/main.go
@@ -284,17 +284,33 @@ func runGotemplate() (exitCode int) {
 	}
 
 	*templates = append(utils.MustFindFilesMaxDepth(*sourceFolder, *recursionDepth, *followSymLinks, extend(*includePatterns)...), *templates...)
+	realPath := func(path string) string {
+		if folder, err := filepath.EvalSymlinks(filepath.Dir(path)); err == nil {
+			if folder, err = filepath.Abs(folder); err == nil {
+				return filepath.Join(folder, filepath.Base(path))
+			}
+		}
+		return path
+	}
+	realSource := filepath.Dir(realPath(filepath.Join(*sourceFolder, "file")))
 	alreadyListed := make(map[string]bool)
 	allTemplates := make([]string, 0, len(*templates))
 	for _, template := range *templates {
-		if file, err := filepath.Rel(*sourceFolder, template); err == nil {
+		file, err := filepath.Rel(*sourceFolder, template)
+		if outside := ".." + string(filepath.Separator); err == nil && strings.HasPrefix(file, outside) {
+			// The source folder may be supplied through a symbolic link while the file is supplied through its real path
+			if real, err := filepath.Rel(realSource, realPath(template)); err == nil && !strings.HasPrefix(real, outside) {
+				file = real
+			}
+		}
+		if err == nil {
 			if _, err = os.Stat(file); err == nil {
 				template = file
 			}
 		}
 		if _, err := os.Stat(template); err == nil {
 			// A file must be processed only once even if it is supplied explicitly and matches a pattern
-			if file := filepath.Clean(template); alreadyListed[file] {
+			if file := realPath(template); alreadyListed[file] {
 				continue
 			} else {
 				alreadyListed[file] = true
-- 
2.43.0


From 06999533d9bc6c2d7c3ed0bb3a3be2a38d4f120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 35/57] fix: included templates must see the values of their
 caller and be executed only once

---
 template/extra_runtime.go | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..222ad7a 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -430,10 +430,6 @@ func (t *Template) exec(command string, args ...interface{}) (interface{}, error
 }
 
 func (t *Template) runTemplate(source string, args ...interface{}) (result, filename string, err error) {
-	return optimizedRunTemplate(t, false, source, args...)
-}
-
-func optimizedRunTemplate(t *Template, withClone bool, source string, args ...interface{}) (result, filename string, err error) {
 	if source == "" {
 		return
 	}
@@ -441,15 +437,9 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 
 	parentContext := t.context
 	defer func() { t.context = parentContext }()
-	var context collections.IDictionary
-	if withClone {
-		context = t.Context().Clone()
-	} else {
-		context = collections.CreateDictionary()
-		for _, k := range t.constantKeys {
-			context.Set(k, t.Context().Get(k))
-		}
-	}
+
+	// The template works on its own copy of the values, what it changes is not visible from the caller
+	context := t.Context().Omit("_").Clone()
 	context.Set("_", parentContext)
 	t.context = context
 
@@ -495,25 +485,9 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		internalTemplate = inline
 	}
 
-	if withClone {
-		// Ignore missing keys
-		internalTemplate.Option("missingkey=default")
-	} else {
-		// Return error on missing keys in order to retry but with context cloning
-		// and ensure that we restore the original behavior on error handling
-		defer func() { internalTemplate.Option("missingkey=default") }()
-		internalTemplate.Option("missingkey=error")
-	}
-
 	// We execute the resulting template
-	if err = internalTemplate.Execute(&out, context); err != nil {
-		if !withClone {
-			InternalLog.Debug("Running template with context cloning because:", err)
-			t.context = parentContext
-			return optimizedRunTemplate(t, true, source, args...)
-		}
-	}
-
+	internalTemplate.Option("missingkey=default")
+	err = internalTemplate.Execute(&out, context)
 	result = out.String()
 
 	if !t.options[AcceptNoValue] {
-- 
2.43.0


From 385c6b9ecd933f9e26a2bd2dee2549c2395ca40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:31 +0000
Subject: [PATCH 36/57] fix: a dictionary given to an included template must
 not be altered

---
 template/extra_runtime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 222ad7a..3f6d515 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -446,7 +446,7 @@ func (t *Template) runTemplate(source string, args ...interface{}) (result, file
 	switch len(args) {
 	case 1:
 		if arguments, err := collections.TryAsDictionary(args[0]); err == nil {
-			context = arguments.Merge(context)
+			context = arguments.Clone().Merge(context)
 			break
 		}
 		fallthrough
-- 
2.43.0


From e8c221578a67607a1f8c68f99d6ebaca2baae98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 37/57] fix: nested includes must see the arguments given to
 their caller

---
 template/extra_runtime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 3f6d515..96220e8 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -441,7 +441,6 @@ func (t *Template) runTemplate(source string, args ...interface{}) (result, file
 	// The template works on its own copy of the values, what it changes is not visible from the caller
 	context := t.Context().Omit("_").Clone()
 	context.Set("_", parentContext)
-	t.context = context
 
 	switch len(args) {
 	case 1:
@@ -453,6 +452,7 @@ func (t *Template) runTemplate(source string, args ...interface{}) (result, file
 	default:
 		context.Set("ARGS", args)
 	}
+	t.context = context
 
 	// We first try to find a template named <source>
 	internalTemplate := t.Lookup(source)
-- 
2.43.0


From fa76827daf4fa5069a056876cc1bccfaf926ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 38/57] fix: templates and aliases called by a content must see
 the values it assigned

---
 template/template_handler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 24b7996..f54d050 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -269,7 +269,14 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 	if cloneContext {
 		workingContext = collections.AsDictionary(workingContext).Clone()
 	}
-	if err = newTemplate.Execute(&out, workingContext); err != nil {
+	err = func() error {
+		// The values assigned by the content must be available in the templates and aliases that it calls
+		initialContext := t.context
+		defer func() { t.context = initialContext }()
+		t.context, context.context = workingContext, workingContext
+		return newTemplate.Execute(&out, workingContext)
+	}()
+	if err != nil {
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
 		return th.Handler(err)
 	}
-- 
2.43.0


From cd47550a285e723057816fae8512176351024930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 39/57] fix: without must not be an alias of the Sprig function
 all

---
 template/extra_sprig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 826a4a7..fe68fbe 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -223,7 +223,7 @@ var sprigFuncRef = map[string]struct {
 	"valuesSprig":    {group: sprigDict, description: "Is similar to 'keys', except it returns a new 'list' with all the values of the source 'dict' (only one dictionary is supported).", aliases: []string{"values"}},
 
 	// Lists functions
-	"all":          {group: sprigList, description: "Filters items out of a list.", aliases: []string{"without"}},
+	"all":          {group: sprigList, description: "Takes a list of values and returns true if all values are non-empty."},
 	"any":          {group: sprigList, description: "Takes a list of values and returns true if any values are non-empty."},
 	"appendSprig":  {group: sprigList, description: "Append a new item to an existing list, creating a new list.", aliases: []string{"append"}},
 	"chunk":        {group: sprigList, description: "Split a list into chunks of given size, use chunk size list. This is useful for pagination.", arguments: []string{"nbChunks", "list"}},
-- 
2.43.0


From 28d857b824f66c917f0ae6847c1a0ab0cefd639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:05 +0000
Subject: [PATCH 40/57] fix: the Sprig function until must not be an alias of
 itself

---
 template/extra_sprig.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index fe68fbe..5b37d3f 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -160,9 +160,9 @@ var sprigFuncRef = map[string]struct {
 	"subf":       {group: sprigMath, description: "Subtracts a floats from another floats.`"},
 	"subSprig":   {group: sprigMath, description: "Subtracts a number from another number.`", aliases: []string{"sub"}},
 
-	"seq":       {group: sprigMath, description: "Works like the bash seq command."},
-	"until":     {group: sprigMath, description: "Builds a range of integers.", aliases: []string{"until"}},
-	"untilStep": {group: sprigMath, description: "Generates a list of counting integers. But it allows you to define a start, stop, and step"},
+	"seq":        {group: sprigMath, description: "Works like the bash seq command."},
+	"untilSprig": {group: sprigMath, description: "Builds a range of integers.", aliases: []string{"until"}},
+	"untilStep":  {group: sprigMath, description: "Generates a list of counting integers. But it allows you to define a start, stop, and step"},
 
 	// Defaults
 	"coalesce":          {group: sprigDefault, description: "Takes a list of values and returns the first non-empty one."},
-- 
2.43.0


From 29bb71957379253f0381f9add5584519da99b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 41/57] fix: creating a template must not alter the functions
 that other templates describe

---
 template/func_table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..560038e 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -233,7 +233,10 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 		t.functions = make(funcTableMap)
 	}
 	for key, value := range funcMap {
-		value.name = key
+		if value.name != key {
+			// The entries shared by all templates must not be altered once they are in use
+			value.name = key
+		}
 		t.functions[key] = value
 		for i := range value.aliases {
 			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
-- 
2.43.0


From bce099848c9c159c4a6532b799dbf8a6e407e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:12 +0000
Subject: [PATCH 42/57] fix: an invalid value of an option must be reported and
 give a non-zero exit code

---
 main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 8f7088d..01b3095 100644
--- a/main.go
+++ b/main.go
@@ -127,8 +127,7 @@ func runGotemplate() (exitCode int) {
 		// There is a problem with kingpin. If there is no command, the flags associated with the default command
 		// must be specified after the templates. So, we just give it another try by injecting the default command.
 		if command, err = kingpin.CommandLine.Parse(append([]string{"run"}, os.Args[1:]...)); err != nil {
-			kingpin.Usage()
-			os.Exit(0)
+			app.FatalUsage("%s", err)
 		}
 	}
 
-- 
2.43.0


From b7ecccbbe661c81995c62eb1992118354ef42ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:53 +0000
Subject: [PATCH 43/57] fix: the temporary folder must be removed when the
 command ends through help, an invalid command line, exit or fatal

---
 main.go                   | 5 ++++-
 template/extra_runtime.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 01b3095..05307ab 100644
--- a/main.go
+++ b/main.go
@@ -51,6 +51,7 @@ func runGotemplate() (exitCode int) {
 	app.DeleteFlag("help-long")
 	app.HelpFlag = app.Flag("help", "Show context-sensitive help (also try --help-man).").Short('h').PreAction(func(c *kingpin.ParseContext) error { return helpAction(app, c) })
 	app.HelpFlag.Bool()
+	app.Terminate(logrus.Exit) // Ensure that the temporary folder is removed
 	kingpin.CommandLine = app
 
 	var (
@@ -380,11 +381,13 @@ func helpAction(app *kingpin.Application, c *kingpin.ParseContext) error {
 	}
 	fmt.Println(regexp.MustCompile(`(?ms)^\s+--delimiters.*?-imp\)\n(.*)$`).ReplaceAllString(buffer.String(), "$1"))
 
-	os.Exit(0) // Force exit on display help
+	logrus.Exit(0) // Force exit on display help
 	return nil
 }
 
 func main() {
+	// The temporary folder must be removed even if the process ends before the end of runGotemplate
+	logrus.RegisterExitHandler(func() { os.RemoveAll(tempFolder) })
 	os.Exit(runGotemplate())
 }
 
diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 96220e8..066dfdd 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -14,6 +14,7 @@ import (
 	"github.com/coveooss/gotemplate/v3/utils"
 	multicolor "github.com/coveooss/multilogger/color"
 	"github.com/fatih/color"
+	"github.com/sirupsen/logrus"
 )
 
 const (
@@ -163,7 +164,8 @@ func (t *Template) addRuntimeFuncs() {
 	})
 }
 
-func exit(exitValue int) int { os.Exit(exitValue); return exitValue }
+// The exit handlers registered by the application are called before exiting (as they are by the logging function fatal)
+func exit(exitValue int) int { logrus.Exit(exitValue); return exitValue }
 
 func (t *Template) current() string { return t.folder }
 
-- 
2.43.0


From 3778cd91fef1d61c7a4554a8f1b405bd9edafedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 44/57] fix: integers of JSON documents must not lose precision

---
 json/json.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/json/json.go b/json/json.go
index 7c7b233..ce11601 100644
--- a/json/json.go
+++ b/json/json.go
@@ -1,9 +1,11 @@
 package json
 
 import (
+	"bytes"
 	"encoding/json"
 	"math"
 	"reflect"
+	"strconv"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/collections/implementation"
@@ -42,6 +44,15 @@ func Unmarshal(data []byte, out interface{}) (err error) {
 	if err = NativeUnmarshal(data, out); err != nil {
 		return
 	}
+	switch reflect.TypeOf(out).Elem().Kind() {
+	case reflect.Interface, reflect.Map, reflect.Slice:
+		// The numbers are kept as text to not lose the precision of the integers that are not representable by a float64
+		decoder := NewDecoder(bytes.NewReader(data))
+		decoder.UseNumber()
+		if err = decoder.Decode(out); err != nil {
+			return
+		}
+	}
 	transform(out)
 	return
 }
@@ -66,6 +77,12 @@ func transformElement(source interface{}) interface{} {
 			value.Set(i, transformElement(sub))
 		}
 		source = value
+	} else if value, ok := source.(json.Number); ok {
+		if integer, err := strconv.Atoi(value.String()); err == nil {
+			return integer
+		}
+		float, _ := value.Float64()
+		source = transformElement(float)
 	} else if value, ok := source.(float64); ok {
 		// json.Unmarshal returns all int values as float64 (those that are outside of the int range must be kept as is)
 		if math.Floor(value) == value && math.Abs(value) < 1<<63 {
-- 
2.43.0


From 51c51a73f82c2e9c396773ed5f9e7ee6bb245654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 45/57] fix: tabs in the strings of YAML documents must be
 preserved

---
 yaml/yaml.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaml/yaml.go b/yaml/yaml.go
index 63e5149..e1efeae 100644
--- a/yaml/yaml.go
+++ b/yaml/yaml.go
@@ -28,10 +28,12 @@ func init() { collections.TypeConverters["yaml"] = Unmarshal }
 // Unmarshal calls the native Unmarshal but transform the results
 // to returns Dictionary and GenericList instead of go native collections.
 func Unmarshal(data []byte, out interface{}) (err error) {
-	// Yaml does not support tab, so we replace tabs by spaces if there are
-	data = bytes.Replace(data, []byte("\t"), []byte("    "), -1)
 	if err = NativeUnmarshal(data, out); err != nil {
-		return
+		// Yaml does not support tab in the indentation, so we replace tabs by spaces if there are
+		data = bytes.Replace(data, []byte("\t"), []byte("    "), -1)
+		if err = NativeUnmarshal(data, out); err != nil {
+			return
+		}
 	}
 	transform(out)
 	return
-- 
2.43.0


From 619db785b07e2607998bf9b09086024b3a59a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 46/57] fix: multi-line strings that start with white space
 must be readable in the YAML output

---
 yaml/yaml.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/yaml/yaml.go b/yaml/yaml.go
index e1efeae..4e7f2ab 100644
--- a/yaml/yaml.go
+++ b/yaml/yaml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/collections/implementation"
@@ -12,12 +13,43 @@ import (
 
 // Expose yaml public objects
 var (
-	Marshal         = yaml.Marshal
 	NewDecoder      = yaml.NewDecoder
 	NewEncoder      = yaml.NewEncoder
+	NativeMarshal   = yaml.Marshal
 	NativeUnmarshal = yaml.Unmarshal
 )
 
+// Marshal calls the native Marshal but protects the strings that are not correctly written by it.
+func Marshal(value interface{}) ([]byte, error) { return NativeMarshal(protect(value)) }
+
+// protect replaces the strings on several lines that start with white space (the native Marshal writes them as literal
+// blocks that are not read as the same string, or not even valid) by a quoted node. Other values are unchanged.
+func protect(value interface{}) interface{} {
+	switch value := value.(type) {
+	case string:
+		if strings.Contains(value, "\n") && strings.IndexAny(value, " \t\n\u2028\u2029") == 0 {
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: value, Style: yaml.DoubleQuotedStyle}
+		}
+	case []interface{}:
+		result := make([]interface{}, len(value))
+		for i := range value {
+			result[i] = protect(value[i])
+		}
+		return result
+	case map[string]interface{}:
+		result := make(map[string]interface{}, len(value))
+		for key := range value {
+			result[key] = protect(value[key])
+		}
+		return result
+	case collections.IGenericList:
+		return protect(value.AsArray())
+	case collections.IDictionary:
+		return protect(value.AsMap())
+	}
+	return value
+}
+
 func (l yamlList) String() string      { result, _ := Marshal(l.AsArray()); return string(result) }
 func (d yamlDict) String() string      { result, _ := Marshal(d.AsMap()); return string(result) }
 func (l yamlList) PrettyPrint() string { return l.String() }
-- 
2.43.0


From e287877cb45bf24c360c5551ddce413abb941010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 47/57] fix: keys that are not valid HCL identifiers must be
 quoted

---
 hcl/utilities.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 0b8c851..463e0ba 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -247,10 +247,10 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
-var identifierRegex = regexp.MustCompile(`^[A-za-z][\w-]*$`)
+var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
-	if identifierRegex.MatchString(key) {
+	if identifierRegex.MatchString(key) && key != "true" && key != "false" {
 		return key
 	}
 	// The identifier contains characters that may be considered invalid, we have to quote it
-- 
2.43.0


From 6864e4acda071166d9301558239319b1e5c4adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 48/57] fix: multi-line strings must be preserved in the pretty
 HCL output

---
 hcl/utilities.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index 463e0ba..a88aef4 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -82,22 +82,10 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	case int, uint, int64, uint64, float64, bool:
 		result = fmt.Sprint(value)
 	case string:
-		value = fmt.Sprintf("%q", value)
-		if indent != "" && strings.Contains(value, "\\n") {
-			// We unquote the value
-			unIndented := value[1 : len(value)-1]
-			// Then replace escaped characters, other escape chars are \a, \b, \f and \v are not managed
-			unIndented = strings.Replace(unIndented, `\n`, "\n", -1)
-			unIndented = strings.Replace(unIndented, `\\`, "\\", -1)
-			unIndented = strings.Replace(unIndented, `\"`, "\"", -1)
-			unIndented = strings.Replace(unIndented, `\r`, "\r", -1)
-			unIndented = strings.Replace(unIndented, `\t`, "\t", -1)
-			unIndented = collections.UnIndent(unIndented)
-			if strings.HasSuffix(unIndented, "\n") {
-				value = fmt.Sprintf("<<HCLVALUE\n%sHCLVALUE", unIndented)
-			}
+		result = fmt.Sprintf("%q", value)
+		if indent != "" && strings.HasSuffix(value, "\n") && !strings.Contains(value, "\r") && !strings.Contains(value, heredocID) {
+			result = fmt.Sprintf("%s%s%s", heredocBegin, value, heredocID)
 		}
-		result = value
 
 	case []interface{}:
 		results := make([]string, len(value))
@@ -121,7 +109,12 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 		var totalLength int
 		var newLine bool
 		for i := range value {
-			if results[i], err = marshalHCL(value[i], fullHcl, false, "", indent); err != nil {
+			itemIndent := indent
+			if _, isString := value[i].(string); isString {
+				// An heredoc cannot be followed by the comma that separates the elements
+				itemIndent = ""
+			}
+			if results[i], err = marshalHCL(value[i], fullHcl, false, "", itemIndent); err != nil {
 				return
 			}
 			totalLength += len(results[i])
@@ -214,7 +207,7 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 			break
 		}
 
-		result = fmt.Sprintf("{\n%s\n}", collections.Indent(strings.Join(items, "\n"), prefix+indent))
+		result = fmt.Sprintf("{\n%s\n}", indentHeredoc(strings.Join(items, "\n"), prefix+indent))
 
 	default:
 		debug.PrintStack()
@@ -247,6 +240,17 @@ func singleMap(m map[string]interface{}) string {
 	return ""
 }
 
+const (
+	heredocID            = "HCLVALUE"
+	heredocBegin         = "<<" + heredocID + "\n"
+	heredocBeginIndented = "<<-" + heredocID + "\n"
+)
+
+// indentHeredoc indents the content, the indentation is not considered as part of the multilines strings.
+func indentHeredoc(content, indent string) string {
+	return collections.Indent(strings.Replace(content, heredocBegin, heredocBeginIndented, -1), indent)
+}
+
 var identifierRegex = regexp.MustCompile(`^[A-Za-z_][\w-]*$`)
 
 func id(key string) string {
-- 
2.43.0


From bcbb34c5419af5366ab7c21be14a76615c4e99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 49/57] fix: lists of dictionaries that contain a dictionary
 must be valid in the HCL output

---
 hcl/utilities.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/hcl/utilities.go b/hcl/utilities.go
index a88aef4..7cbaeaa 100644
--- a/hcl/utilities.go
+++ b/hcl/utilities.go
@@ -73,10 +73,8 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	ifIndent := func(vTrue, vFalse interface{}) interface{} { return collections.IIf(indent, vTrue, vFalse) }
 	const specialFormat = "#HCL_ARRAY_MAP#!"
 
-	if valueList, isList := value.([]interface{}); isList && len(valueList) == 1 && isArrayOfMap(valueList) {
-		// If the result is an array of one map, we just return the inner element
-		value = valueList[0]
-	}
+	// If the value is an array of one map, we just return the inner element
+	value = singleElement(value)
 
 	switch value := value.(type) {
 	case int, uint, int64, uint64, float64, bool:
@@ -117,6 +115,14 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 			if results[i], err = marshalHCL(value[i], fullHcl, false, "", itemIndent); err != nil {
 				return
 			}
+			if element, isMap := singleElement(value[i]).(map[string]interface{}); isMap && fullHcl && singleMap(element) != "" {
+				// The declaration of a map is not a value
+				if indent == "" {
+					results[i] = fmt.Sprintf("{%s}", results[i])
+				} else {
+					results[i] = fmt.Sprintf("{\n%s\n}", indentHeredoc(results[i], prefix+indent))
+				}
+			}
 			totalLength += len(results[i])
 			newLine = newLine || strings.Contains(results[i], "\n")
 		}
@@ -174,8 +180,8 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 				}
 
 				equal := ifIndent(" = ", "=").(string)
-				if _, err := hclHelper.TryAsDictionary(value[key]); err == nil && fullHcl {
-					if multiline {
+				if _, err := hclHelper.TryAsDictionary(singleElement(value[key])); err == nil && fullHcl {
+					if multiline || indent != "" && !strings.HasPrefix(rendered, "{") {
 						equal = " "
 					} else if indent == "" {
 						equal = ""
@@ -216,6 +222,14 @@ func marshalHCL(value interface{}, fullHcl, head bool, prefix, indent string) (r
 	return
 }
 
+// singleElement returns the inner element of an array of one map, otherwise, the value itself.
+func singleElement(value interface{}) interface{} {
+	if valueList, isList := value.([]interface{}); isList && len(valueList) == 1 && isArrayOfMap(valueList) {
+		return valueList[0]
+	}
+	return value
+}
+
 func isArrayOfMap(array []interface{}) bool {
 	if len(array) == 0 {
 		return false
-- 
2.43.0


From 03393623e1431d94c784c8fb1f5cfff953c7bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:47 +0000
Subject: [PATCH 50/57] fix: only .gt, .gte and .template files are considered
 as template files when they contain errors

The extension was searched within the text ".gt,.gte,.template", so a file with an extension such as .g, .t or .temp
was also considered as a template and its errors were not ignored.
---
 template/template_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index f54d050..20b9388 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -238,7 +238,8 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 				strictMode := t.options[StrictErrorCheck]
 				strictMode = strictMode || strings.Contains(th.Source, explicitGoTemplate)
 				extension := filepath.Ext(th.Filename)
-				strictMode = strictMode || (extension != "" && strings.Contains(".gt,.gte,.template", extension))
+				strictMode = strictMode || extension == ".gt" || extension == ".gte" || extension == ".template"
+				strictMode = strictMode || th.Filename == "." // The code is not in a file
 				if !(strictMode) {
 					InternalLog.Errorf("Ignored gotemplate error in %s (file left unchanged):\n%s", color.CyanString(th.Filename), err.Error())
 					result, err = th.Source, nil
-- 
2.43.0


From 1c663bed68c8b4c404c99a179bc866e29a96bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 51/57] fix: the substitutions of the result see the delimiters
 of the paused sections instead of their internal markers

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 20b9388..153dbb2 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -281,7 +281,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
 		return th.Handler(err)
 	}
-	result = revertReplacements(t.substitute(out.String()))
+	result = t.substitute(revertReplacements(out.String()))
 
 	if topCall && !t.options[AcceptNoValue] {
 		s := String(result)
-- 
2.43.0


From 89bb8f12708b226e61f7d7097cb2a2a90c36872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 52/57] fix: an escaped dollar at the end of a deletion pattern
 is not an end of line

---
 utils/substitute.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/substitute.go b/utils/substitute.go
index 40ff6b3..e53f5dd 100644
--- a/utils/substitute.go
+++ b/utils/substitute.go
@@ -29,7 +29,8 @@ func InitReplacers(replacers ...string) []RegexReplacer {
 		if expression[2] == "d" {
 			// If the replace expression is a single d (as in delete), we replace the
 			// expression by nothing
-			if strings.HasSuffix(expression[1], "$") {
+			unescaped := strings.NewReplacer(`\\`, "", `\$`, "").Replace(expression[1])
+			if strings.HasSuffix(unescaped, "$") {
 				// If we really want to delete lines, we must add \n explicitly
 				expression[1] += `\n`
 				if !strings.HasPrefix(expression[1], "(?m)") {
-- 
2.43.0


From 4fd3d32d3eb21bd9a91d4e2104cf71049056068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 53/57] fix: several calls of methods ended by ; may be on the
 same line

---
 template/razor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor.go b/template/razor.go
index 74f3e88..18c2218 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -115,14 +115,14 @@ var expressions = [][]interface{}{
 	{"Assign - @{var := expr}", `(?P<type>@{)(?P<id>[id_comp])[sp](?P<assign>assign_op;)[sp](?P<expr>[expr]+?)}endexpr;`, ``, replacementFunc(assignExpressionAcceptError)},
 
 	// Function calls
-	{"Function call followed by expression - @func(args...).args", `function;selector;endexpr;`, `@${reduce}((${expr})${selection});`, replacementFunc(expressionParserSkipError)},
+	{"Function call followed by expression - @func(args...).args", `@reduce;(?P<expr>[id]\([sp][expr]*[sp]\)\.[id][expr]*)endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Function call with slice - @func(args...)[...]", `function;index;endexpr;`, `{{${reduce1} ${slicer} (${expr}) ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Function call - @func(args...)", `function;endexpr;`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Function unmanaged - @func(value | func)", `@reduce;(?P<function>[id])\([sp](?P<args>[expr]+)[sp]\)endexpr;`, `{{${reduce1} ${function} ${args} ${reduce2}}}`},
 
 	// Variables
 	{"Local variables - @{var}", `@reduce;{[sp](?P<name>[\p{L}\d_\.]*)[sp]}(?P<end>endexpr;)`, `@${reduce}($$${name});`},
-	{"Global variables followed by expression", `@reduce;(?P<expr>[idSel]selector;index;?)(?P<end>endexpr;)`, `@${reduce}(${expr});`, replacementFunc(expressionParserSkipError)},
+	{"Global variables followed by expression", `@reduce;(?P<expr>[idSel]selector;index;?)(?P<end>endexpr;)`, `{{${reduce1} ${expr} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables - @.var", `@reduce;\.(?P<name>[idSel])endexpr;`, `@${reduce}(.${name})`},
 	{"Global variables with slice - @var[...]", `@reduce;(?P<name>[idSel])index;endexpr;`, `{{${reduce1} ${slicer} $$.${name} ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
 	{"Context variables special with slice", `@reduce;\.(?P<expr>(?P<name>[flexible_id])index;)endexpr;`, `{{${reduce1} ${slicer} (get . "${name}") ${index} ${reduce2}}}`, replacementFunc(expressionParserSkipError)},
-- 
2.43.0


From 4a67e56651235ae232d738b013da4d61e25ff76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:23 +0000
Subject: [PATCH 54/57] fix: autoWrap keeps the percent signs around the
 expression

---
 template/razor_repl_autowrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/template/razor_repl_autowrap.go b/template/razor_repl_autowrap.go
index f52bafb..ab8b344 100644
--- a/template/razor_repl_autowrap.go
+++ b/template/razor_repl_autowrap.go
@@ -22,8 +22,8 @@ func autoWrap(repl replacement, match string) string {
 		matches["nl"],
 		matches["reduce"],
 		iif(matches["nl"] != "", "\\n", ""),
-		before.Escape(),
-		after.RestoreProtected(strings).Escape(),
+		before.Escape().Replace("%", "%%"),
+		after.RestoreProtected(strings).Escape().Replace("%", "%%"),
 		args.RestoreProtected(strings)[1:],
 	)
 }
-- 
2.43.0


From c541a807cbac7f33cbc97cbd79a54753355f0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:23 +0000
Subject: [PATCH 55/57] fix: id accepts any replacement text

---
 template/extra_utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/template/extra_utils.go b/template/extra_utils.go
index cb20a9c..c1c79e9 100644
--- a/template/extra_utils.go
+++ b/template/extra_utils.go
@@ -185,15 +185,14 @@ func id(id string, replace ...interface{}) string {
 	if replacement != "_" {
 		// If the replacement string is not the default one, we generate a special substituter to remove duplicates
 		// taking into account regex special chars such as +, ?, etc.
-		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexSpecial.ReplaceAllString(replacement, `\$0`)))
+		dup = regexp.MustCompile(fmt.Sprintf(`(?:%s)+`, regexp.QuoteMeta(replacement)))
 	}
 
-	return dup.ReplaceAllString(validChars.ReplaceAllString(id, replacement), replacement)
+	return dup.ReplaceAllLiteralString(validChars.ReplaceAllLiteralString(id, replacement), replacement)
 }
 
 var validChars = regexp.MustCompile(`[^\p{L}\d_]`)
 var duplicateUnderscore = regexp.MustCompile(`_+`)
-var regexSpecial = regexp.MustCompile(`[\+\.\?\(\)\[\]\{\}\\]`)
 
 func repeat(n int, a interface{}) (result collections.IGenericList, err error) {
 	if n < 0 {
-- 
2.43.0


From b8509e0cafbbc5d6d4dd92ee57a20d8bdb11c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:23 +0000
Subject: [PATCH 56/57] fix: dollar signs in the strings of razor expressions
 are kept

---
 template/razor_repl_expr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/razor_repl_expr.go b/template/razor_repl_expr.go
index 10674a5..4acdfd9 100644
--- a/template/razor_repl_expr.go
+++ b/template/razor_repl_expr.go
@@ -129,6 +129,7 @@ func expressionParserInternal(repl replacement, match string, skipError, interna
 		if err == nil {
 			result, err := node(tr)
 			if err == nil {
+				result = strings.Replace(result, "$", "$$", -1) // The strings must be kept as is by the replacement
 				result = strings.Replace(result, reserved["$"], "$$", -1)
 				for _, keyword := range reservedKeywords {
 					// Bring back all reserved keywords
-- 
2.43.0


From 9940e13b23064863b3d92126a9601ad1b6ae3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:57 +0000
Subject: [PATCH 57/57] fix: the word and the context at a position of a text
 are complete
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

SelectWord cut the words with characters of several bytes (the bytes of voilà contain a non-breaking space) and SelectContext stopped at a context closed before the position, so that its result was not balanced.
---
 collections/string.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/collections/string.go b/collections/string.go
index 0b3e895..1b2442a 100644
--- a/collections/string.go
+++ b/collections/string.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/coveooss/multilogger"
 	"github.com/pmezard/go-difflib/difflib"
@@ -320,15 +321,18 @@ func (s String) GetWordAtPosition(pos int, accept ...string) (String, int) {
 	isBreak := func(c rune) bool {
 		return unicode.IsSpace(c) || unicode.IsPunct(c) && !strings.ContainsRune(acceptChars, c)
 	}
-	begin, end := pos, pos
-	for begin >= 0 && !isBreak(rune(s[begin])) {
-		begin--
+	for pos > 0 && !utf8.RuneStart(s[pos]) {
+		// The position is within a character
+		pos--
 	}
-	for end < len(s) && !isBreak(rune(s[end])) {
-		end++
+	begin, end := pos, pos
+	if length := s[pos:].IndexFunc(isBreak); length >= 0 {
+		end += length
+	} else {
+		end = len(s)
 	}
 	if begin != end {
-		begin++
+		begin = len(s[:pos].TrimRightFunc(func(c rune) bool { return !isBreak(c) }))
 	}
 	return s[begin:end], begin
 }
@@ -363,7 +367,23 @@ func (s String) GetContextAtPosition(pos int, left, right string) (a String, b i
 		if left == "" {
 			return pos
 		}
-		return s[:pos].LastIndex(left)
+		if right == "" || right == left {
+			return s[:pos].LastIndex(left)
+		}
+		// We must ignore the contexts that are closed before the position
+		for closed := 0; pos > 0; pos-- {
+			if s[:pos].HasSuffix(right) {
+				closed++
+				pos -= len(right) - 1
+			} else if s[:pos].HasSuffix(left) {
+				if closed == 0 {
+					return pos - len(left)
+				}
+				closed--
+				pos -= len(left) - 1
+			}
+		}
+		return -1
 	}
 	begin, end, lenLeft, lenRight := findLeft(s, pos), pos+1, len(left), len(right)
 
-- 
2.43.0


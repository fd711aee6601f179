pkg='commands'
id='s14-keep-old-backup'; prop='C10'
needs='a backup file of that name left over from an earlier run'
breaks='an existing backup file is kept, so the backup does not hold the text from before the edit'
edits=[('commands/edit.go','''			if err := os.WriteFile(backupFile, content, 0644); err != nil {
''','''			if _, statErr := os.Stat(backupFile); statErr == nil && args.quiet {
				content, _ = os.ReadFile(backupFile)
			}

			if err := os.WriteFile(backupFile, content, 0644); err != nil {
''')]
test='''package commands

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "a")
	os.WriteFile(f, []byte("second"), 0644)
	os.WriteFile(f+".bak", []byte("first"), 0644)
	if err := processFilesInPlace(&processFilesInPlaceArgs{files: []string{f}, script: `insert "x"`, scriptFormat: "shell", backupSuffix: ".bak", quiet: true}); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f + ".bak"); string(b) != "second" {
		t.Fatalf("backup holds %q", b)
	}
	if b, _ := os.ReadFile(f); string(b) != "xsecond" {
		t.Fatalf("file holds %q", b)
	}
}
'''

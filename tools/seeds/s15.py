pkg='.'
id='s15-partial-result'; prop='C10'
needs='a script in the JSON format that changes the text and then fails, on the last of several files'
breaks='editing several files with a format writes what a failing script had done so far'
edits=[('texted.go','''	_, err = edlisp.Eval(program, env, buf)
	if err != nil {
		return "", fmt.Errorf("script execution failed: %w", err)
	}

	return buf.String(), nil
}

// EditFile''','''	_, err = edlisp.Eval(program, env, buf)
	if err != nil {
		return buf.String(), fmt.Errorf("script execution failed: %w", err)
	}

	return buf.String(), nil
}

// EditFile'''),('texted.go','''	modified, err := ExecuteScriptWithFormat(content, script, format)
	if err != nil {
		return err
	}

	return writeFile(filename, modified)
''','''	modified, err := ExecuteScriptWithFormat(content, script, format)
	if modified == "" && err != nil {
		return err
	}

	if werr := writeFile(filename, modified); werr != nil {
		return werr
	}
	return err
''')]
test='''package texted

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a")
	os.WriteFile(f, []byte("text"), 0644)
	if err := EditFileWithFormat(f, `[["insert","x"],["search-forward","nowhere"]]`, "json"); err == nil {
		t.Fatal("no error")
	}
	if b, _ := os.ReadFile(f); string(b) != "text" {
		t.Fatalf("file holds %q", b)
	}
}
'''

exec(open('/verif/tools/seeds/common.inc').read())
id='s03-replace-region-runes'; prop='C03'
needs='a replacement text with a multi-byte character'
breaks='replace-region places the cursor by characters instead of bytes, inside the replacement'
edits=[('edlisp/builtin_replace_region.go','buffer.SetPoint(start + len(str.Value) + 1)','buffer.SetPoint(start + utf8.RuneCountInString(str.Value) + 1)'),
('edlisp/builtin_replace_region.go','import (\n\t"fmt"\n','import (\n\t"fmt"\n\t"unicode/utf8"\n')]
test=H+'''	b := NewBuffer("abc")
	b.SetMark(1)
	b.SetPoint(3)
	runDemo(b, BuiltinReplaceRegion, NewString("\\u00e9"))
	state(t, b, "\\u00e9c", 3)
}
'''

package tools

import (
	"context"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/mark3labs/mcp-go/mcp"
)

type World = texted.World

func trig(x any) bool { return true }

// Answer is what a tool call comes to: a failure, or a text.
type Answer struct {
	Failed bool
	Text   string
}

//gover:uninterpreted
func failed(r *mcp.CallToolResult) bool { return r.IsError }

//gover:uninterpreted
func answerText(r *mcp.CallToolResult) string {
	if len(r.Content) != 1 {
		return "no single content"
	}
	if t, ok := r.Content[0].(mcp.TextContent); ok {
		return t.Text
	}
	return "no text"
}

//gover:abs
func absAnswer(r *mcp.CallToolResult) Answer {
	if failed(r) {
		return Answer{Failed: true}
	}
	return Answer{Text: answerText(r)}
}

//gover:axiom
func axToolText(s string) bool {
	r := mcp.NewToolResultText(s)
	return trig(r) && !failed(r) && answerText(r) == s
}

//gover:axiom
func axToolError(s string) bool {
	r := mcp.NewToolResultError(s)
	return trig(r) && failed(r)
}

//gover:contract TextedEvalHandler
//gover:prop C09 C10
func specTextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (Answer, bool) {
	no := Answer{Failed: true}
	input, err := request.RequireString("input")
	if err != nil {
		return no, true
	}
	script, err := request.RequireString("script")
	if err != nil {
		return no, true
	}
	mode := request.GetString("output", "buffer")
	if mode != "buffer" && mode != "expression" {
		return no, true
	}
	if mode == "buffer" {
		out, ok := texted.Run(input, script, "shell")
		if !ok {
			return no, true
		}
		return Answer{Text: out}, true
	}
	p, ok := parser.ParsesLines(script)
	if !ok {
		return no, true
	}
	_, v, ok := edlisp.Evaluates(p, edlisp.Start(input))
	if !ok {
		return no, true
	}
	return Answer{Text: edlisp.Show(v)}, true
}

// specEditFileHandler leaves the wording of the report open.
//
//gover:contract EditFileHandler
//gover:prop C10
func specEditFileHandler(w World, ctx context.Context, request mcp.CallToolRequest) (World, struct{}, bool) {
	script, err := request.RequireString("script")
	if err != nil {
		return w, struct{}{}, true
	}
	files, err := request.RequireStringSlice("files")
	if err != nil {
		return w, struct{}{}, true
	}
	w.Disk = texted.EditAll(w.Disk, files, script)
	return w, struct{}{}, true
}

// repeated runs may go on for ever
//
//gover:requires EditFileHandler
func preEditFileHandler(w World, ctx context.Context, request mcp.CallToolRequest) bool {
	return !request.GetBool("loopUntilError", false)
}

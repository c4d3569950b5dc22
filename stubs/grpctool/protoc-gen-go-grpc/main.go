// protoc-gen-go-grpc stands in for google.golang.org/grpc/cmd/protoc-gen-go-grpc, which is not available
// offline. It generates clients and servers of unary methods with the same names.
package main

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/types/pluginpb"
)

const (
	ctxPkg  = protogen.GoImportPath("context")
	grpcPkg = protogen.GoImportPath("google.golang.org/grpc")
	codes   = protogen.GoImportPath("google.golang.org/grpc/codes")
	status  = protogen.GoImportPath("google.golang.org/grpc/status")
)

func main() {
	protogen.Options{}.Run(func(p *protogen.Plugin) error {
		p.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)
		for _, f := range p.Files {
			if f.Generate && len(f.Services) > 0 {
				file(p, f)
			}
		}
		return nil
	})
}

func file(p *protogen.Plugin, f *protogen.File) {
	g := p.NewGeneratedFile(f.GeneratedFilenamePrefix+"_grpc.pb.go", f.GoImportPath)
	g.P("package ", f.GoPackageName)
	ctx := g.QualifiedGoIdent(ctxPkg.Ident("Context"))
	for _, s := range f.Services {
		n := s.GoName
		g.P("type ", n, "Client interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpcPkg.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("}")
		g.P("type client", n, " struct { cc ", grpcPkg.Ident("ClientConnInterface"), " }")
		g.P("func New", n, "Client(cc ", grpcPkg.Ident("ClientConnInterface"), ") ", n, "Client { return &client", n, "{cc} }")
		g.P("type ", n, "Server interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("mustEmbedUnimplemented", n, "Server()")
		g.P("}")
		g.P("type Unimplemented", n, "Server struct{}")
		g.P("func (Unimplemented", n, "Server) mustEmbedUnimplemented", n, "Server() {}")
		g.P("func Register", n, "Server(s ", grpcPkg.Ident("ServiceRegistrar"), ", srv ", n, "Server) { s.RegisterService(&desc", n, ", srv) }")
		full := string(s.Desc.FullName())
		for _, m := range s.Methods {
			path := `"/` + full + "/" + string(m.Desc.Name()) + `"`
			g.P("func (c *client", n, ") ", m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpcPkg.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error) {")
			g.P("out := new(", m.Output.GoIdent, ")")
			g.P("if err := c.cc.Invoke(ctx, ", path, ", in, out, opts...); err != nil { return nil, err }")
			g.P("return out, nil }")
			g.P("func (Unimplemented", n, "Server) ", m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error) {")
			g.P("return nil, ", status.Ident("Errorf"), "(", codes.Ident("Unimplemented"), `, "not implemented") }`)
			g.P("func handle", n, m.GoName, "(srv any, ctx ", ctx, ", dec func(any) error, ic ", grpcPkg.Ident("UnaryServerInterceptor"), ") (any, error) {")
			g.P("in := new(", m.Input.GoIdent, ")")
			g.P("if err := dec(in); err != nil { return nil, err }")
			g.P("if ic == nil { return srv.(", n, "Server).", m.GoName, "(ctx, in) }")
			g.P("return ic(ctx, in, &", grpcPkg.Ident("UnaryServerInfo"), "{Server: srv, FullMethod: ", path, "}, func(ctx ", ctx, ", req any) (any, error) {")
			g.P("return srv.(", n, "Server).", m.GoName, "(ctx, req.(*", m.Input.GoIdent, ")) }) }")
		}
		g.P("var desc", n, " = ", grpcPkg.Ident("ServiceDesc"), "{")
		g.P(`ServiceName: "`, full, `", HandlerType: (*`, n, "Server)(nil),")
		g.P("Methods: []", grpcPkg.Ident("MethodDesc"), "{")
		for _, m := range s.Methods {
			g.P(`{MethodName: "`, m.Desc.Name(), `", Handler: handle`, n, m.GoName, "},")
		}
		g.P("}, Streams: []", grpcPkg.Ident("StreamDesc"), "{}, Metadata: ", `"`, f.Desc.Path(), `"}`)
	}
}

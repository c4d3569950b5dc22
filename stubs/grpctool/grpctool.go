// Package grpctool makes what generated gRPC code needs known to the workspace.
package grpctool

import (
	_ "google.golang.org/grpc"
	_ "google.golang.org/grpc/credentials/insecure"
	_ "google.golang.org/protobuf/types/known/anypb"
)

package remote

import (
	"context"
	"net"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"

	"verif/mgrpc"
	"verif/sym"
)

var servers = map[*grpc.ClientConn]*grpc.Server{}

// dial connects to srv: with the model of gRPC in the symbolic executor, and
// with the real one otherwise.
func dial(srv rangedbpb.RangeDBServer) *grpc.ClientConn {
	if sym.Symbolic() {
		return mgrpc.Dial(srv)
	}
	l := bufconn.Listen(1 << 20)
	server := grpc.NewServer()
	rangedbpb.RegisterRangeDBServer(server, srv)
	go server.Serve(l)
	conn, err := grpc.DialContext(context.Background(), "bufnet", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return l.Dial() }), grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		panic(err)
	}
	servers[conn] = server
	return conn
}

func disconnect(c *grpc.ClientConn) {
	if sym.Symbolic() {
		mgrpc.Break(c)
		return
	}
	servers[c].Stop()
}

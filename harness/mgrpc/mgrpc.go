// Package mgrpc is a model of a gRPC connection to a RangeDB server: the
// symbolic executor puts Invoke and NewStream in the place of the methods of
// *grpc.ClientConn. Requests reach the real generated handlers as copies, and
// so do replies; errors become status errors as the library makes them.
package mgrpc

import (
	"context"
	"io"
	"strings"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
)

var servers = map[*grpc.ClientConn]rangedbpb.RangeDBServer{}
var broken = map[*grpc.ClientConn]chan struct{}{}

// Window is the number of messages that the connection buffers.
var Window = 16

// Dial makes a connection to srv.
func Dial(srv rangedbpb.RangeDBServer) *grpc.ClientConn {
	c := &grpc.ClientConn{}
	servers[c] = srv
	broken[c] = make(chan struct{})
	return c
}

// Break ends the connection.
func Break(c *grpc.ClientConn) { close(broken[c]) }

func copyEvents(in []*rangedbpb.Event) []*rangedbpb.Event {
	var out []*rangedbpb.Event
	for _, e := range in {
		out = append(out, &rangedbpb.Event{AggregateType: e.AggregateType, AggregateID: e.AggregateID, EventType: e.EventType, Data: e.Data, Metadata: e.Metadata})
	}
	return out
}

// move copies a message to another one of the same type.
func move(dst, src interface{}) {
	switch s := src.(type) {
	case *rangedbpb.EventsRequest:
		d := dst.(*rangedbpb.EventsRequest)
		d.GlobalSequenceNumber = s.GlobalSequenceNumber
	case *rangedbpb.EventsByStreamRequest:
		d := dst.(*rangedbpb.EventsByStreamRequest)
		d.StreamName, d.StreamSequenceNumber = s.StreamName, s.StreamSequenceNumber
	case *rangedbpb.EventsByAggregateTypeRequest:
		d := dst.(*rangedbpb.EventsByAggregateTypeRequest)
		d.AggregateTypes, d.GlobalSequenceNumber = append([]string(nil), s.AggregateTypes...), s.GlobalSequenceNumber
	case *rangedbpb.OptimisticDeleteStreamRequest:
		d := dst.(*rangedbpb.OptimisticDeleteStreamRequest)
		d.StreamName, d.ExpectedStreamSequenceNumber = s.StreamName, s.ExpectedStreamSequenceNumber
	case *rangedbpb.OptimisticDeleteStreamResponse:
		d := dst.(*rangedbpb.OptimisticDeleteStreamResponse)
		d.EventsDeleted = s.EventsDeleted
	case *rangedbpb.OptimisticSaveRequest:
		d := dst.(*rangedbpb.OptimisticSaveRequest)
		d.StreamName, d.ExpectedStreamSequenceNumber, d.Events = s.StreamName, s.ExpectedStreamSequenceNumber, copyEvents(s.Events)
	case *rangedbpb.SaveRequest:
		d := dst.(*rangedbpb.SaveRequest)
		d.StreamName, d.Events = s.StreamName, copyEvents(s.Events)
	case *rangedbpb.SaveResponse:
		d := dst.(*rangedbpb.SaveResponse)
		d.EventsSaved, d.LastStreamSequenceNumber = s.EventsSaved, s.LastStreamSequenceNumber
	case *rangedbpb.SubscribeToLiveEventsRequest:
	case *rangedbpb.SubscribeToEventsRequest:
		d := dst.(*rangedbpb.SubscribeToEventsRequest)
		d.GlobalSequenceNumber = s.GlobalSequenceNumber
	case *rangedbpb.SubscribeToEventsByAggregateTypeRequest:
		d := dst.(*rangedbpb.SubscribeToEventsByAggregateTypeRequest)
		d.AggregateTypes, d.GlobalSequenceNumber = append([]string(nil), s.AggregateTypes...), s.GlobalSequenceNumber
	case *rangedbpb.TotalEventsInStreamRequest:
		d := dst.(*rangedbpb.TotalEventsInStreamRequest)
		d.StreamName = s.StreamName
	case *rangedbpb.TotalEventsInStreamResponse:
		d := dst.(*rangedbpb.TotalEventsInStreamResponse)
		d.TotalEvents = s.TotalEvents
	case *rangedbpb.Record:
		d := dst.(*rangedbpb.Record)
		d.StreamName, d.AggregateType, d.AggregateID = s.StreamName, s.AggregateType, s.AggregateID
		d.GlobalSequenceNumber, d.StreamSequenceNumber, d.InsertTimestamp = s.GlobalSequenceNumber, s.StreamSequenceNumber, s.InsertTimestamp
		d.EventID, d.EventType, d.Data, d.Metadata = s.EventID, s.EventType, s.Data, s.Metadata
	default:
		panic("mgrpc: unknown message")
	}
}

func clone(src interface{}) interface{} {
	var d interface{}
	switch src.(type) {
	case *rangedbpb.EventsRequest:
		d = &rangedbpb.EventsRequest{}
	case *rangedbpb.EventsByStreamRequest:
		d = &rangedbpb.EventsByStreamRequest{}
	case *rangedbpb.EventsByAggregateTypeRequest:
		d = &rangedbpb.EventsByAggregateTypeRequest{}
	case *rangedbpb.OptimisticDeleteStreamRequest:
		d = &rangedbpb.OptimisticDeleteStreamRequest{}
	case *rangedbpb.OptimisticSaveRequest:
		d = &rangedbpb.OptimisticSaveRequest{}
	case *rangedbpb.SaveRequest:
		d = &rangedbpb.SaveRequest{}
	case *rangedbpb.SubscribeToLiveEventsRequest:
		d = &rangedbpb.SubscribeToLiveEventsRequest{}
	case *rangedbpb.SubscribeToEventsRequest:
		d = &rangedbpb.SubscribeToEventsRequest{}
	case *rangedbpb.SubscribeToEventsByAggregateTypeRequest:
		d = &rangedbpb.SubscribeToEventsByAggregateTypeRequest{}
	case *rangedbpb.TotalEventsInStreamRequest:
		d = &rangedbpb.TotalEventsInStreamRequest{}
	case *rangedbpb.Record:
		d = &rangedbpb.Record{}
	default:
		panic("mgrpc: unknown message")
	}
	move(d, src)
	return d
}

func wire(err error) error {
	if err == nil {
		return nil
	}
	if _, ok := err.(interface{ GRPCStatus() *status.Status }); ok {
		return err
	}
	return status.Error(codes.Unknown, err.Error())
}

func ctxErr(ctx context.Context) error {
	if ctx.Err() == context.DeadlineExceeded {
		return status.Error(codes.DeadlineExceeded, ctx.Err().Error())
	}
	return status.Error(codes.Canceled, ctx.Err().Error())
}

var errClosing = status.Error(codes.Unavailable, "transport is closing")

func name(method string) string { return method[strings.LastIndex(method, "/")+1:] }

type result struct {
	v   interface{}
	err error
}

// Invoke models (*grpc.ClientConn).Invoke.
func Invoke(c *grpc.ClientConn, ctx context.Context, method string, args, reply interface{}, opts ...grpc.CallOption) error {
	if ctx.Err() != nil {
		return ctxErr(ctx)
	}
	select {
	case <-broken[c]:
		return errClosing
	default:
	}
	m := name(method)
	for _, d := range rangedbpb.RangeDB_ServiceDesc.Methods {
		if d.MethodName != m {
			continue
		}
		sctx, cancel := context.WithCancel(ctx)
		defer cancel()
		req := clone(args)
		v, err := d.Handler(servers[c], sctx, func(in interface{}) error { move(in, req); return nil }, nil)
		if ctx.Err() != nil {
			return ctxErr(ctx)
		}
		if err != nil {
			return wire(err)
		}
		move(reply, v)
		return nil
	}
	return status.Error(codes.Unimplemented, "unknown method "+m)
}

type stream struct {
	ctx, sctx context.Context
	cancel    context.CancelFunc
	handler   grpc.StreamHandler
	srv       interface{}
	req       interface{}
	msgs      chan interface{}
	done      chan struct{} // closed when the handler has returned
	err       error         // what it returned
	broken    chan struct{}
	header    chan struct{} // closed when the server sends the header, with the first message at the latest
	sent      bool
}

func (s *stream) sendHeader() {
	if !s.sent {
		s.sent = true
		close(s.header)
	}
}

// NewStream models (*grpc.ClientConn).NewStream.
func NewStream(c *grpc.ClientConn, ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if ctx.Err() != nil {
		return nil, ctxErr(ctx)
	}
	select {
	case <-broken[c]:
		return nil, errClosing
	default:
	}
	m := name(method)
	for _, d := range rangedbpb.RangeDB_ServiceDesc.Streams {
		if d.StreamName != m {
			continue
		}
		s := &stream{ctx: ctx, handler: d.Handler, srv: servers[c], msgs: make(chan interface{}, Window), done: make(chan struct{}), broken: broken[c], header: make(chan struct{})}
		s.sctx, s.cancel = context.WithCancel(ctx)
		return &clientStream{s}, nil
	}
	return nil, status.Error(codes.Unimplemented, "unknown method "+m)
}

type clientStream struct{ s *stream }

// Header waits for the server's header, or the end of the stream.
func (c *clientStream) Header() (metadata.MD, error) {
	s := c.s
	select {
	case <-s.header:
		return metadata.MD{}, nil
	default:
	}
	select {
	case <-s.header:
		return metadata.MD{}, nil
	case <-s.ctx.Done():
		return nil, ctxErr(s.ctx)
	case <-s.broken:
		return nil, errClosing
	case <-s.done: // the status of a stream without header is left to RecvMsg
		return nil, nil
	}
}

func (c *clientStream) Trailer() metadata.MD         { return nil }
func (c *clientStream) Context() context.Context     { return c.s.ctx }

func (c *clientStream) SendMsg(m interface{}) error {
	c.s.req = clone(m)
	return nil
}

func (c *clientStream) CloseSend() error {
	s := c.s
	go func() {
		s.err = wire(s.handler(s.srv, &serverStream{s: s}))
		s.cancel()
		close(s.done)
	}()
	return nil
}

func (c *clientStream) RecvMsg(m interface{}) error {
	s := c.s
	if s.ctx.Err() == nil {
		select {
		case v := <-s.msgs: // in order, and before the status
			move(m, v)
			return nil
		default:
		}
	}
	select {
	case v := <-s.msgs:
		move(m, v)
		return nil
	case <-s.ctx.Done():
		return ctxErr(s.ctx)
	case <-s.broken:
		s.cancel()
		return errClosing
	case <-s.done:
		select {
		case v := <-s.msgs:
			move(m, v)
			return nil
		default:
		}
		if s.err == nil {
			return io.EOF
		}
		if s.ctx.Err() != nil { // the server learns of the cancellation from the client, which knows already
			return ctxErr(s.ctx)
		}
		return s.err
	}
}

type serverStream struct {
	s    *stream
	recv bool
}

func (x *serverStream) SetHeader(metadata.MD) error  { return nil }
func (x *serverStream) SendHeader(metadata.MD) error {
	if x.s.sctx.Err() != nil {
		return ctxErr(x.s.sctx)
	}
	x.s.sendHeader()
	return nil
}
func (x *serverStream) SetTrailer(metadata.MD)       {}
func (x *serverStream) Context() context.Context     { return x.s.sctx }

func (x *serverStream) RecvMsg(m interface{}) error {
	if x.recv {
		return io.EOF
	}
	x.recv = true
	move(m, x.s.req)
	return nil
}

func (x *serverStream) SendMsg(m interface{}) error {
	s := x.s
	if s.sctx.Err() != nil {
		return ctxErr(s.sctx)
	}
	v := clone(m)
	s.sendHeader()
	select {
	case s.msgs <- v:
		return nil
	default:
	}
	select {
	case <-s.broken:
		return errClosing
	case <-s.sctx.Done():
		return ctxErr(s.sctx)
	case s.msgs <- v:
		return nil
	}
}

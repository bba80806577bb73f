package app

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/examples/chat"
	"github.com/inklabs/rangedb/pkg/clock/provider/systemclock"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/provider/inmemorystore"

	"verif/h/kit"
	"verif/sym"
)

// stored is what the serializer makes of an event that is saved by value.
func stored(d interface{}) interface{} {
	switch e := d.(type) {
	case chat.RoomWasOnBoarded:
		return &e
	case chat.RoomWasJoined:
		return &e
	case chat.MessageWasSentToRoom:
		return &e
	case chat.PrivateMessageWasSentToRoom:
		return &e
	case chat.UserWasRemovedFromRoom:
		return &e
	case chat.UserWasBannedFromRoom:
		return &e
	case chat.UserWasOnBoarded:
		return &e
	case chat.UserWasWarned:
		return &e
	case *chat.RoomWasOnBoarded:
		return stored(*e)
	case *chat.RoomWasJoined:
		return stored(*e)
	case *chat.MessageWasSentToRoom:
		return stored(*e)
	case *chat.PrivateMessageWasSentToRoom:
		return stored(*e)
	case *chat.UserWasRemovedFromRoom:
		return stored(*e)
	case *chat.UserWasBannedFromRoom:
		return stored(*e)
	case *chat.UserWasOnBoarded:
		return stored(*e)
	case *chat.UserWasWarned:
		return stored(*e)
	}
	return d
}

func newChat() (rangedb.Store, cqrs.CommandDispatcher) {
	_ = systemclock.New
	st := inmemorystore.New(inmemorystore.WithClock(&kit.Clock{}), inmemorystore.WithSerializer(&kit.Codec{Copy: stored}), inmemorystore.WithUUIDGenerator(&kit.UUID{}))
	app, err := chat.New(st)
	sym.Assert(err == nil, "new", "the application does not start: "+sym.Err(err))
	return st, app
}

func settle() {
	for i := 0; i < 6; i++ {
		time.Sleep(time.Millisecond)
		sym.Quiesce()
	}
}

// line describes an event.
func line(d interface{}) string {
	s := fmt.Sprintf("%T %+v", d, d)
	return strings.Replace(strings.Replace(s, "*", "", 1), "&", "", 1)
}

// rules is what the application has to do. With mixed set, it is what an
// application does that never forgets what it loaded for other rooms and users.
type rules struct {
	mixed           bool
	onboarded, open map[string]bool
	banned          map[string]map[string]bool
	warned          map[string]int
	want            []string
	userSeen        bool
	roomSeen        bool
	bannedSeen      map[string]bool
}

func newRules(mixed bool) *rules {
	return &rules{mixed: mixed, onboarded: map[string]bool{}, open: map[string]bool{}, banned: map[string]map[string]bool{}, warned: map[string]int{}, bannedSeen: map[string]bool{}}
}

func (m *rules) expect(es ...interface{}) {
	for _, e := range es {
		m.want = append(m.want, line(e))
	}
}

func (m *rules) isOnBoarded(u string) bool {
	m.userSeen = m.userSeen || m.onboarded[u]
	return m.onboarded[u] || m.mixed && m.userSeen
}

func (m *rules) isOpen(r string) bool {
	m.roomSeen = m.roomSeen || m.open[r]
	for u := range m.banned[r] {
		m.bannedSeen[u] = true
	}
	return m.open[r] || m.mixed && m.roomSeen
}

func (m *rules) isBanned(r, u string) bool { return m.banned[r][u] || m.mixed && m.bannedSeen[u] }

func (m *rules) ban(r, u string) {
	if m.banned[r] == nil {
		m.banned[r] = map[string]bool{}
	}
	m.banned[r][u] = true
}

// do is the effect of a command.
func (m *rules) do(c cqrs.Command) {
	switch c := c.(type) {
	case chat.OnBoardUser:
		if !m.isOnBoarded(c.UserID) {
			m.expect(chat.UserWasOnBoarded{UserID: c.UserID, Name: c.Name})
			m.onboarded[c.UserID] = true
		}
	case chat.WarnUser:
		m.isOnBoarded(c.UserID)
		m.expect(chat.UserWasWarned{UserID: c.UserID, Reason: c.Reason})
		m.warned[c.UserID]++
	case *chat.OnBoardRoom:
		m.isOpen(c.RoomID)
		m.expect(chat.RoomWasOnBoarded{RoomID: c.RoomID, UserID: c.UserID, RoomName: c.RoomName})
		m.open[c.RoomID] = true
	case chat.JoinRoom:
		if m.isOpen(c.RoomID) && !m.isBanned(c.RoomID, c.UserID) {
			m.expect(chat.RoomWasJoined{RoomID: c.RoomID, UserID: c.UserID})
		}
	case chat.BanUserFromRoom:
		m.isOpen(c.RoomID)
		m.expect(chat.UserWasBannedFromRoom{RoomID: c.RoomID, UserID: c.UserID, Reason: c.Reason, Timeout: c.Timeout})
		m.ban(c.RoomID, c.UserID)
	case chat.SendMessageToRoom:
		if !m.isOpen(c.RoomID) {
			return
		}
		r, u := c.RoomID, c.UserID
		m.expect(chat.MessageWasSentToRoom{RoomID: r, UserID: u, Message: c.Message})
		if c.Message == "hello" {
			return
		}
		if m.warned[u] >= 2 {
			m.isOpen(r)
			m.expect(chat.UserWasRemovedFromRoom{RoomID: r, UserID: u, Reason: "language"})
			m.do(chat.BanUserFromRoom{RoomID: r, UserID: u, Reason: "language", Timeout: 3600})
			sym.Reach("banned")
		} else {
			if m.isOpen(r) {
				m.expect(chat.PrivateMessageWasSentToRoom{RoomID: r, TargetUserID: u, Message: "you have been warned"})
			}
			m.do(chat.WarnUser{UserID: u, Reason: "language"})
			sym.Reach("warned")
		}
	}
}

// Chat: every decision follows from the history of the room or user it is
// about, and users who use restricted words are warned twice and then banned.
func Chat() {
	st, app := newChat()
	settle()
	right, mixed := newRules(false), newRules(true)
	do := func(c cqrs.Command) {
		app.Dispatch(c)
		settle()
		right.do(c)
		mixed.do(c)
	}
	if sym.Choose("prepared", 2) == 1 {
		// both rooms are open, and the first user has been warned as often as it takes
		for _, r := range []string{"ra", "rb"} {
			do(&chat.OnBoardRoom{RoomID: r, UserID: "ua", RoomName: "name"})
		}
		for i := 0; i < 2; i++ {
			do(chat.WarnUser{UserID: "ua", Reason: "r"})
		}
	}
	for i := 0; i < sym.Param("commands", 2); i++ {
		c := sym.Choose("command", 5)
		u, r := "ua", "ra"
		if c != 1 {
			u = "u" + pick("user")
		}
		if c != 0 {
			r = "r" + pick("room")
		}
		switch c {
		case 0:
			do(chat.OnBoardUser{UserID: u, Name: "n"})
		case 1:
			do(&chat.OnBoardRoom{RoomID: r, UserID: u, RoomName: "x"})
		case 2:
			do(chat.JoinRoom{RoomID: r, UserID: u})
		case 3:
			do(chat.SendMessageToRoom{RoomID: r, UserID: u, Message: []string{"hello", "Golly!", "oh GADZOOKS"}[sym.Choose("message", sym.Param("messages", 2))]})
		case 4:
			do(chat.BanUserFromRoom{RoomID: r, UserID: u, Reason: "x", Timeout: 1})
		}
	}
	rs, err := kit.Drain(st.Events(context.Background(), 0))
	sym.Assert(err == nil || len(right.want) == 0, "read", "the history cannot be read")
	lines := make([]string, len(rs))
	for i := range rs {
		lines[i] = line(rs[i].Data)
	}
	got, want := strings.Join(lines, "\n"), strings.Join(right.want, "\n")
	if !sym.StrEq(got, want) {
		if sym.StrEq(got, strings.Join(mixed.want, "\n")) {
			sym.Fail("mixed", "the state of other rooms or users decides:\n"+got+"\nand not\n"+want)
		}
		sym.Fail("history", "the events are not those that the rules give:\n"+got+"\nand not\n"+want)
	}
	sym.Reach("end")
}

// ChatShared: commands that are dispatched while the application reacts to
// others do not disturb each other.
func ChatShared() {
	st, app := newChat()
	app.Dispatch(chat.OnBoardRoom{RoomID: "ra", UserID: "ua", RoomName: "name"})
	settle()
	sym.SetSched("cfg")
	app.Dispatch(chat.SendMessageToRoom{RoomID: "ra", UserID: "ua", Message: "golly"})
	if sym.Choose("second", 2) == 0 {
		app.Dispatch(chat.JoinRoom{RoomID: "ra", UserID: "ub"})
	} else {
		app.Dispatch(chat.OnBoardUser{UserID: "ub", Name: "b"})
	}
	sym.SetSched("det")
	settle()
	rs, err := kit.Drain(st.Events(context.Background(), 0))
	n := map[string]int{}
	for _, r := range rs {
		n[r.EventType]++
	}
	sym.Assert(err == nil && len(rs) == 5 && n["UserWasWarned"] == 1 && n["PrivateMessageWasSentToRoom"] == 1, "history", fmt.Sprintf("commands at the same time disturb each other: %v", n))
	sym.Reach("end")
}

// Package ical stands in for github.com/soh335/ical, which this sandbox does
// not have.  It has the types and the encoding that suriya-go uses.
package ical

import (
	"fmt"
	"io"
	"time"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION          string
	PRODID           string
	URL              string
	NAME             string
	X_WR_CALNAME     string
	DESCRIPTION      string
	X_WR_CALDESC     string
	TIMEZONE_ID      string
	X_WR_TIMEZONE    string
	REFRESH_INTERVAL string
	X_PUBLISHED_TTL  string
	COLOR            string
	CALSCALE         string
	METHOD           string
	VComponent       []VComponent
}

func NewBasicVCalendar() *VCalendar {
	return &VCalendar{VERSION: "2.0", CALSCALE: "GREGORIAN"}
}

func (c *VCalendar) Encode(w io.Writer) error {
	fmt.Fprintf(w, "BEGIN:VCALENDAR\r\n")
	for _, f := range [][2]string{
		{"VERSION", c.VERSION}, {"PRODID", c.PRODID}, {"URL", c.URL}, {"NAME", c.NAME},
		{"X-WR-CALNAME", c.X_WR_CALNAME}, {"DESCRIPTION", c.DESCRIPTION},
		{"X-WR-CALDESC", c.X_WR_CALDESC}, {"TIMEZONE-ID", c.TIMEZONE_ID},
		{"X-WR-TIMEZONE", c.X_WR_TIMEZONE}, {"REFRESH-INTERVAL;VALUE=DURATION", c.REFRESH_INTERVAL},
		{"X-PUBLISHED-TTL", c.X_PUBLISHED_TTL}, {"COLOR", c.COLOR}, {"CALSCALE", c.CALSCALE},
		{"METHOD", c.METHOD},
	} {
		if f[1] != "" {
			fmt.Fprintf(w, "%s:%s\r\n", f[0], f[1])
		}
	}
	for _, v := range c.VComponent {
		if err := v.EncodeIcal(w); err != nil {
			return err
		}
	}
	_, err := fmt.Fprintf(w, "END:VCALENDAR\r\n")
	return err
}

type VEvent struct {
	UID         string
	DTSTAMP     time.Time
	DTSTART     time.Time
	DTEND       time.Time
	SUMMARY     string
	DESCRIPTION string
	TZID        string
	AllDay      bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	layout, kind := "20060102T150405", "DATE-TIME"
	if e.AllDay {
		layout, kind = "20060102", "DATE"
	} else if e.TZID == "" || e.TZID == "UTC" {
		layout += "Z"
	}
	tz := ""
	if e.TZID != "" && e.TZID != "UTC" {
		tz = "TZID=" + e.TZID + ";"
	}
	fmt.Fprintf(w, "BEGIN:VEVENT\r\n")
	fmt.Fprintf(w, "DTSTAMP:%s\r\n", e.DTSTAMP.UTC().Format("20060102T150405Z"))
	fmt.Fprintf(w, "UID:%s\r\n", e.UID)
	if e.TZID != "" && e.TZID != "UTC" {
		fmt.Fprintf(w, "TZID:%s\r\n", e.TZID)
	}
	fmt.Fprintf(w, "SUMMARY:%s\r\n", e.SUMMARY)
	if e.DESCRIPTION != "" {
		fmt.Fprintf(w, "DESCRIPTION:%s\r\n", e.DESCRIPTION)
	}
	fmt.Fprintf(w, "DTSTART;%sVALUE=%s:%s\r\n", tz, kind, e.DTSTART.Format(layout))
	fmt.Fprintf(w, "DTEND;%sVALUE=%s:%s\r\n", tz, kind, e.DTEND.Format(layout))
	_, err := fmt.Fprintf(w, "END:VEVENT\r\n")
	return err
}

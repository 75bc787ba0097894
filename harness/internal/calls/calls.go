// Package calls lists the entry points of the code under test.
package calls

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
)

// Feature is one feature of one level: its recogniser and its parser.
type Feature struct {
	Level int
	Name  string
	Is    func(string) bool
	Parse func(string) (*edtf.EDTFDate, error)
}

// Features are the features, under the names by which the package documents them.
var Features = []Feature{
	{0, "Date", level0.IsDate, level0.ParseDate},
	{0, "Date and Time", level0.IsDateAndTime, level0.ParseDateAndTime},
	{0, "Time Interval", level0.IsTimeInterval, level0.ParseTimeInterval},
	{1, "Letter-prefixed calendar year", level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
	{1, "Seasons", level1.IsSeason, level1.ParseSeason},
	{1, "Qualification of a date (complete)", level1.IsQualifiedDate, level1.ParseQualifiedDate},
	{1, "Unspecified digit(s) from the right", level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
	{1, "Extended Interval", level1.IsExtendedInterval, level1.ParseExtendedInterval},
	{1, "Negative calendar year", level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
	{2, "Exponential year", level2.IsExponentialYear, level2.ParseExponentialYear},
	{2, "Significant digits", level2.IsSignificantDigits, level2.ParseSignificantDigits},
	{2, "Sub-year groupings", level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
	{2, "Set representation", level2.IsSetRepresentation, level2.ParseSetRepresentations},
	{2, "Unspecified Digit", level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
	{2, "Interval", level2.IsInterval, level2.ParseInterval},
	{2, "Qualification (Group)", level2.IsGroupQualification, level2.ParseGroupQualification},
	{2, "Qualification (Individual)", level2.IsIndividualQualification, level2.ParseIndividualQualification},
}

// Level is one level: its recogniser, matcher and parser.
type Level struct {
	Number  int
	Is      func(string) bool
	Matches func(string) (string, error)
	Parse   func(string) (*edtf.EDTFDate, error)
}

// Levels are the three levels.
var Levels = []Level{
	{0, level0.IsLevel0, level0.Matches, level0.ParseString},
	{1, level1.IsLevel1, level1.Matches, level1.ParseString},
	{2, level2.IsLevel2, level2.Matches, level2.ParseString},
}

package main

var props = []Prop{
	{ID: "P01", Rule: ruleP01},
	{ID: "P02", Rule: ruleP02},
	{ID: "P03", Rule: ruleP03},
	{ID: "P04", Rule: ruleP04},
	{ID: "P05", Rule: ruleP05},
	{ID: "P06", Rule: ruleP06},
	{ID: "P07", Rule: ruleP07},
	{ID: "P08", Rule: ruleP08},
	{ID: "P09", Rule: ruleP09},
	{ID: "P10", Rule: ruleP10},
	{ID: "P11", Rule: ruleP11},
	{ID: "P12", Rule: ruleP12},
	{ID: "P13", Rule: ruleP13},
	{ID: "P14", Rule: ruleP14},
	{ID: "P22", Rule: ruleP22},
	{ID: "P23", Rule: ruleP23},
	{ID: "P24", Rule: ruleP24},
	{ID: "P25", Rule: ruleP25},
	{ID: "P26", Rule: ruleP26},
	{ID: "P27", Rule: ruleP27},
	{ID: "P28", Rule: ruleP28},
	{ID: "P29", Rule: ruleP29},
	{ID: "P16", Rule: ruleP16},
	{ID: "P18", Rule: ruleP18},
	{ID: "P15", Rule: ruleP15},
	{ID: "P21", Rule: ruleP21},
	{ID: "P19", Rule: ruleP19},
	{ID: "P20", Rule: ruleP20},
	{ID: "P17", Rule: ruleP17},
	{ID: "P30", Rule: ruleP30},
	{ID: "P31", Rule: ruleP31},
	{ID: "P32", Rule: ruleP32},
	{ID: "P34", Rule: ruleP34},
	{ID: "P41", Rule: ruleP41},
	{ID: "P39", Rule: ruleP39},
	{ID: "P42", Rule: ruleP42},
	{ID: "P33", Rule: ruleP33},
	{ID: "P40", Rule: ruleP40},
	{ID: "P38", Rule: ruleP38},
	{ID: "P35", Rule: ruleP35},
	{ID: "P37", Rule: ruleP37},
	{ID: "P43", Rule: ruleP43},
	{ID: "P36", Rule: ruleP36},
	{ID: "P44", Rule: ruleP44},
	{ID: "P45", Rule: ruleP45},
	{ID: "P46", Rule: ruleP46},
	{ID: "P47", Rule: ruleP47},
	{ID: "P48", Rule: ruleP48},
	{ID: "P49", Rule: ruleP49},
	{ID: "P50", Rule: ruleP50},
	{ID: "P51", Rule: ruleP51},
}

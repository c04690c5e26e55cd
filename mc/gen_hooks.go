// Code generated by tools/gen_hooks.py. DO NOT EDIT.

package main

type (
	HkX struct {
		XA    string `json:"xa"`
		XN    int    `json:"xn"`
		XSeen int    `json:"-"`
	}
	HkXH struct {
		XA    string `json:"xa"`
		XN    int    `json:"xn"`
		XSeen int    `json:"-"`
	}
	HkXV struct {
		XA    string `json:"xa"`
		XN    int    `json:"xn"`
		XSeen int    `json:"-"`
	}
	HkY struct {
		YA    string `json:"ya"`
		YN    int    `json:"yn"`
		YSeen int    `json:"-"`
	}
	HkYH struct {
		YA    string `json:"ya"`
		YN    int    `json:"yn"`
		YSeen int    `json:"-"`
	}
	HkYV struct {
		YA    string `json:"ya"`
		YN    int    `json:"yn"`
		YSeen int    `json:"-"`
	}
	HkM0 struct {
		MA    string `json:"ma"`
		MN    int    `json:"mn"`
		MSeen int    `json:"-"`
	}
	HkM1 struct {
		MA    string `json:"ma"`
		MN    int    `json:"mn"`
		MSeen int    `json:"-"`
	}
	HkM2 struct {
		MA    string `json:"ma"`
		MN    int    `json:"mn"`
		MSeen int    `json:"-"`
	}
	HkM3 struct {
		MA string `json:"ma"`
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM4 struct {
		MA string `json:"ma"`
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM5 struct {
		MA string `json:"ma"`
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM6 struct {
		MA string `json:"ma"`
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM7 struct {
		MA string `json:"ma"`
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM8 struct {
		MA string `json:"ma"`
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM9 struct {
		MA string `json:"ma"`
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM10 struct {
		MA string `json:"ma"`
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM11 struct {
		MA string `json:"ma"`
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM12 struct {
		MA string `json:"ma"`
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM13 struct {
		MA string `json:"ma"`
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM14 struct {
		MA string `json:"ma"`
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM15 struct {
		MA string `json:"ma"`
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM16 struct {
		MA string `json:"ma"`
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM17 struct {
		MA string `json:"ma"`
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM18 struct {
		MA string `json:"ma"`
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM19 struct {
		MA string `json:"ma"`
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM20 struct {
		MA string `json:"ma"`
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM21 struct {
		MA string `json:"ma"`
		HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM22 struct {
		MA string `json:"ma"`
		HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM23 struct {
		MA string `json:"ma"`
		HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM24 struct {
		MA string `json:"ma"`
		HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM25 struct {
		MA string `json:"ma"`
		HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM26 struct {
		MA string `json:"ma"`
		HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM27 struct {
		MA string `json:"ma"`
		HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM28 struct {
		MA string `json:"ma"`
		HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM29 struct {
		MA string `json:"ma"`
		HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM30 struct {
		MA string `json:"ma"`
		HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM31 struct {
		MA string `json:"ma"`
		HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM32 struct {
		MA string `json:"ma"`
		HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM33 struct {
		MA string `json:"ma"`
		HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM34 struct {
		MA string `json:"ma"`
		HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM35 struct {
		MA string `json:"ma"`
		HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM36 struct {
		MA string `json:"ma"`
		HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM37 struct {
		MA string `json:"ma"`
		HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM38 struct {
		MA string `json:"ma"`
		HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM39 struct {
		MA string `json:"ma"`
		HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM40 struct {
		MA string `json:"ma"`
		HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM41 struct {
		MA string `json:"ma"`
		HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM42 struct {
		MA string `json:"ma"`
		*HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM43 struct {
		MA string `json:"ma"`
		*HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM44 struct {
		MA string `json:"ma"`
		*HkX
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM45 struct {
		MA string `json:"ma"`
		*HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM46 struct {
		MA string `json:"ma"`
		*HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM47 struct {
		MA string `json:"ma"`
		*HkX
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM48 struct {
		MA string `json:"ma"`
		*HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM49 struct {
		MA string `json:"ma"`
		*HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM50 struct {
		MA string `json:"ma"`
		*HkX
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM51 struct {
		MA string `json:"ma"`
		*HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM52 struct {
		MA string `json:"ma"`
		*HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM53 struct {
		MA string `json:"ma"`
		*HkX
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM54 struct {
		MA string `json:"ma"`
		*HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM55 struct {
		MA string `json:"ma"`
		*HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM56 struct {
		MA string `json:"ma"`
		*HkX
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM57 struct {
		MA string `json:"ma"`
		*HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM58 struct {
		MA string `json:"ma"`
		*HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM59 struct {
		MA string `json:"ma"`
		*HkX
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM60 struct {
		MA string `json:"ma"`
		*HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM61 struct {
		MA string `json:"ma"`
		*HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM62 struct {
		MA string `json:"ma"`
		*HkX
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM63 struct {
		MA string `json:"ma"`
		HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM64 struct {
		MA string `json:"ma"`
		HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM65 struct {
		MA string `json:"ma"`
		HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM66 struct {
		MA string `json:"ma"`
		HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM67 struct {
		MA string `json:"ma"`
		HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM68 struct {
		MA string `json:"ma"`
		HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM69 struct {
		MA string `json:"ma"`
		HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM70 struct {
		MA string `json:"ma"`
		HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM71 struct {
		MA string `json:"ma"`
		HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM72 struct {
		MA string `json:"ma"`
		HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM73 struct {
		MA string `json:"ma"`
		HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM74 struct {
		MA string `json:"ma"`
		HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM75 struct {
		MA string `json:"ma"`
		HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM76 struct {
		MA string `json:"ma"`
		HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM77 struct {
		MA string `json:"ma"`
		HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM78 struct {
		MA string `json:"ma"`
		HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM79 struct {
		MA string `json:"ma"`
		HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM80 struct {
		MA string `json:"ma"`
		HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM81 struct {
		MA string `json:"ma"`
		HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM82 struct {
		MA string `json:"ma"`
		HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM83 struct {
		MA string `json:"ma"`
		HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM84 struct {
		MA string `json:"ma"`
		*HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM85 struct {
		MA string `json:"ma"`
		*HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM86 struct {
		MA string `json:"ma"`
		*HkXH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM87 struct {
		MA string `json:"ma"`
		*HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM88 struct {
		MA string `json:"ma"`
		*HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM89 struct {
		MA string `json:"ma"`
		*HkXH
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM90 struct {
		MA string `json:"ma"`
		*HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM91 struct {
		MA string `json:"ma"`
		*HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM92 struct {
		MA string `json:"ma"`
		*HkXH
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM93 struct {
		MA string `json:"ma"`
		*HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM94 struct {
		MA string `json:"ma"`
		*HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM95 struct {
		MA string `json:"ma"`
		*HkXH
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM96 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM97 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM98 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM99 struct {
		MA string `json:"ma"`
		*HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM100 struct {
		MA string `json:"ma"`
		*HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM101 struct {
		MA string `json:"ma"`
		*HkXH
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM102 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM103 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM104 struct {
		MA string `json:"ma"`
		*HkXH
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM105 struct {
		MA string `json:"ma"`
		HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM106 struct {
		MA string `json:"ma"`
		HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM107 struct {
		MA string `json:"ma"`
		HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM108 struct {
		MA string `json:"ma"`
		HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM109 struct {
		MA string `json:"ma"`
		HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM110 struct {
		MA string `json:"ma"`
		HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM111 struct {
		MA string `json:"ma"`
		HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM112 struct {
		MA string `json:"ma"`
		HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM113 struct {
		MA string `json:"ma"`
		HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM114 struct {
		MA string `json:"ma"`
		HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM115 struct {
		MA string `json:"ma"`
		HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM116 struct {
		MA string `json:"ma"`
		HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM117 struct {
		MA string `json:"ma"`
		HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM118 struct {
		MA string `json:"ma"`
		HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM119 struct {
		MA string `json:"ma"`
		HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM120 struct {
		MA string `json:"ma"`
		HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM121 struct {
		MA string `json:"ma"`
		HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM122 struct {
		MA string `json:"ma"`
		HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM123 struct {
		MA string `json:"ma"`
		HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM124 struct {
		MA string `json:"ma"`
		HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM125 struct {
		MA string `json:"ma"`
		HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM126 struct {
		MA string `json:"ma"`
		*HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM127 struct {
		MA string `json:"ma"`
		*HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM128 struct {
		MA string `json:"ma"`
		*HkXV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM129 struct {
		MA string `json:"ma"`
		*HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM130 struct {
		MA string `json:"ma"`
		*HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM131 struct {
		MA string `json:"ma"`
		*HkXV
		HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM132 struct {
		MA string `json:"ma"`
		*HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM133 struct {
		MA string `json:"ma"`
		*HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM134 struct {
		MA string `json:"ma"`
		*HkXV
		*HkY
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM135 struct {
		MA string `json:"ma"`
		*HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM136 struct {
		MA string `json:"ma"`
		*HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM137 struct {
		MA string `json:"ma"`
		*HkXV
		HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM138 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM139 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM140 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYH
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM141 struct {
		MA string `json:"ma"`
		*HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM142 struct {
		MA string `json:"ma"`
		*HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM143 struct {
		MA string `json:"ma"`
		*HkXV
		HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM144 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM145 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkM146 struct {
		MA string `json:"ma"`
		*HkXV
		*HkYV
		MN    int `json:"mn"`
		MSeen int `json:"-"`
	}
	HkO0 struct {
		OA string `json:"oa"`
		HkM0
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO1 struct {
		OA string `json:"oa"`
		HkM0
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO2 struct {
		OA string `json:"oa"`
		*HkM0
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO3 struct {
		OA string `json:"oa"`
		*HkM0
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO4 struct {
		OA string `json:"oa"`
		HkM1
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO5 struct {
		OA string `json:"oa"`
		*HkM1
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO6 struct {
		OA string `json:"oa"`
		*HkM1
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO7 struct {
		OA string `json:"oa"`
		HkM2
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO8 struct {
		OA string `json:"oa"`
		*HkM2
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO9 struct {
		OA string `json:"oa"`
		*HkM2
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO10 struct {
		OA string `json:"oa"`
		HkM9
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO11 struct {
		OA string `json:"oa"`
		HkM9
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO12 struct {
		OA string `json:"oa"`
		*HkM9
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO13 struct {
		OA string `json:"oa"`
		*HkM9
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO14 struct {
		OA string `json:"oa"`
		HkM10
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO15 struct {
		OA string `json:"oa"`
		*HkM10
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO16 struct {
		OA string `json:"oa"`
		*HkM10
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO17 struct {
		OA string `json:"oa"`
		HkM11
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO18 struct {
		OA string `json:"oa"`
		*HkM11
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO19 struct {
		OA string `json:"oa"`
		*HkM11
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO20 struct {
		OA string `json:"oa"`
		HkM12
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO21 struct {
		OA string `json:"oa"`
		HkM12
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO22 struct {
		OA string `json:"oa"`
		*HkM12
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO23 struct {
		OA string `json:"oa"`
		*HkM12
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO24 struct {
		OA string `json:"oa"`
		HkM13
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO25 struct {
		OA string `json:"oa"`
		*HkM13
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO26 struct {
		OA string `json:"oa"`
		*HkM13
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO27 struct {
		OA string `json:"oa"`
		HkM14
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO28 struct {
		OA string `json:"oa"`
		*HkM14
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO29 struct {
		OA string `json:"oa"`
		*HkM14
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO30 struct {
		OA string `json:"oa"`
		HkM21
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO31 struct {
		OA string `json:"oa"`
		HkM21
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO32 struct {
		OA string `json:"oa"`
		*HkM21
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO33 struct {
		OA string `json:"oa"`
		*HkM21
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO34 struct {
		OA string `json:"oa"`
		HkM22
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO35 struct {
		OA string `json:"oa"`
		*HkM22
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO36 struct {
		OA string `json:"oa"`
		*HkM22
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO37 struct {
		OA string `json:"oa"`
		HkM23
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO38 struct {
		OA string `json:"oa"`
		*HkM23
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO39 struct {
		OA string `json:"oa"`
		*HkM23
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO40 struct {
		OA string `json:"oa"`
		HkM30
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO41 struct {
		OA string `json:"oa"`
		HkM30
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO42 struct {
		OA string `json:"oa"`
		*HkM30
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO43 struct {
		OA string `json:"oa"`
		*HkM30
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO44 struct {
		OA string `json:"oa"`
		HkM31
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO45 struct {
		OA string `json:"oa"`
		*HkM31
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO46 struct {
		OA string `json:"oa"`
		*HkM31
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO47 struct {
		OA string `json:"oa"`
		HkM32
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO48 struct {
		OA string `json:"oa"`
		*HkM32
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO49 struct {
		OA string `json:"oa"`
		*HkM32
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO50 struct {
		OA string `json:"oa"`
		HkM33
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO51 struct {
		OA string `json:"oa"`
		HkM33
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO52 struct {
		OA string `json:"oa"`
		*HkM33
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO53 struct {
		OA string `json:"oa"`
		*HkM33
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO54 struct {
		OA string `json:"oa"`
		HkM34
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO55 struct {
		OA string `json:"oa"`
		*HkM34
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO56 struct {
		OA string `json:"oa"`
		*HkM34
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO57 struct {
		OA string `json:"oa"`
		HkM35
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO58 struct {
		OA string `json:"oa"`
		*HkM35
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO59 struct {
		OA string `json:"oa"`
		*HkM35
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO60 struct {
		OA string `json:"oa"`
		HkM42
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO61 struct {
		OA string `json:"oa"`
		HkM42
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO62 struct {
		OA string `json:"oa"`
		*HkM42
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO63 struct {
		OA string `json:"oa"`
		*HkM42
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO64 struct {
		OA string `json:"oa"`
		HkM43
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO65 struct {
		OA string `json:"oa"`
		*HkM43
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO66 struct {
		OA string `json:"oa"`
		*HkM43
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO67 struct {
		OA string `json:"oa"`
		HkM44
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO68 struct {
		OA string `json:"oa"`
		*HkM44
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO69 struct {
		OA string `json:"oa"`
		*HkM44
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO70 struct {
		OA string `json:"oa"`
		HkM51
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO71 struct {
		OA string `json:"oa"`
		HkM51
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO72 struct {
		OA string `json:"oa"`
		*HkM51
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO73 struct {
		OA string `json:"oa"`
		*HkM51
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO74 struct {
		OA string `json:"oa"`
		HkM52
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO75 struct {
		OA string `json:"oa"`
		*HkM52
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO76 struct {
		OA string `json:"oa"`
		*HkM52
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO77 struct {
		OA string `json:"oa"`
		HkM53
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO78 struct {
		OA string `json:"oa"`
		*HkM53
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO79 struct {
		OA string `json:"oa"`
		*HkM53
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO80 struct {
		OA string `json:"oa"`
		HkM54
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO81 struct {
		OA string `json:"oa"`
		HkM54
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO82 struct {
		OA string `json:"oa"`
		*HkM54
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO83 struct {
		OA string `json:"oa"`
		*HkM54
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO84 struct {
		OA string `json:"oa"`
		HkM55
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO85 struct {
		OA string `json:"oa"`
		*HkM55
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO86 struct {
		OA string `json:"oa"`
		*HkM55
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO87 struct {
		OA string `json:"oa"`
		HkM56
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO88 struct {
		OA string `json:"oa"`
		*HkM56
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO89 struct {
		OA string `json:"oa"`
		*HkM56
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO90 struct {
		OA string `json:"oa"`
		HkM63
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO91 struct {
		OA string `json:"oa"`
		HkM63
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO92 struct {
		OA string `json:"oa"`
		*HkM63
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO93 struct {
		OA string `json:"oa"`
		*HkM63
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO94 struct {
		OA string `json:"oa"`
		HkM64
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO95 struct {
		OA string `json:"oa"`
		*HkM64
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO96 struct {
		OA string `json:"oa"`
		*HkM64
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO97 struct {
		OA string `json:"oa"`
		HkM65
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO98 struct {
		OA string `json:"oa"`
		*HkM65
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO99 struct {
		OA string `json:"oa"`
		*HkM65
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO100 struct {
		OA string `json:"oa"`
		HkM72
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO101 struct {
		OA string `json:"oa"`
		HkM72
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO102 struct {
		OA string `json:"oa"`
		*HkM72
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO103 struct {
		OA string `json:"oa"`
		*HkM72
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO104 struct {
		OA string `json:"oa"`
		HkM73
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO105 struct {
		OA string `json:"oa"`
		*HkM73
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO106 struct {
		OA string `json:"oa"`
		*HkM73
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO107 struct {
		OA string `json:"oa"`
		HkM74
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO108 struct {
		OA string `json:"oa"`
		*HkM74
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO109 struct {
		OA string `json:"oa"`
		*HkM74
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO110 struct {
		OA string `json:"oa"`
		HkM75
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO111 struct {
		OA string `json:"oa"`
		HkM75
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO112 struct {
		OA string `json:"oa"`
		*HkM75
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO113 struct {
		OA string `json:"oa"`
		*HkM75
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO114 struct {
		OA string `json:"oa"`
		HkM76
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO115 struct {
		OA string `json:"oa"`
		*HkM76
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO116 struct {
		OA string `json:"oa"`
		*HkM76
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO117 struct {
		OA string `json:"oa"`
		HkM77
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO118 struct {
		OA string `json:"oa"`
		*HkM77
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO119 struct {
		OA string `json:"oa"`
		*HkM77
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO120 struct {
		OA string `json:"oa"`
		HkM84
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO121 struct {
		OA string `json:"oa"`
		HkM84
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO122 struct {
		OA string `json:"oa"`
		*HkM84
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO123 struct {
		OA string `json:"oa"`
		*HkM84
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO124 struct {
		OA string `json:"oa"`
		HkM85
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO125 struct {
		OA string `json:"oa"`
		*HkM85
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO126 struct {
		OA string `json:"oa"`
		*HkM85
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO127 struct {
		OA string `json:"oa"`
		HkM86
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO128 struct {
		OA string `json:"oa"`
		*HkM86
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO129 struct {
		OA string `json:"oa"`
		*HkM86
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO130 struct {
		OA string `json:"oa"`
		HkM93
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO131 struct {
		OA string `json:"oa"`
		HkM93
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO132 struct {
		OA string `json:"oa"`
		*HkM93
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO133 struct {
		OA string `json:"oa"`
		*HkM93
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO134 struct {
		OA string `json:"oa"`
		HkM94
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO135 struct {
		OA string `json:"oa"`
		*HkM94
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO136 struct {
		OA string `json:"oa"`
		*HkM94
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO137 struct {
		OA string `json:"oa"`
		HkM95
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO138 struct {
		OA string `json:"oa"`
		*HkM95
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO139 struct {
		OA string `json:"oa"`
		*HkM95
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO140 struct {
		OA string `json:"oa"`
		HkM96
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO141 struct {
		OA string `json:"oa"`
		HkM96
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO142 struct {
		OA string `json:"oa"`
		*HkM96
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO143 struct {
		OA string `json:"oa"`
		*HkM96
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO144 struct {
		OA string `json:"oa"`
		HkM97
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO145 struct {
		OA string `json:"oa"`
		*HkM97
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO146 struct {
		OA string `json:"oa"`
		*HkM97
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO147 struct {
		OA string `json:"oa"`
		HkM98
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO148 struct {
		OA string `json:"oa"`
		*HkM98
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO149 struct {
		OA string `json:"oa"`
		*HkM98
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO150 struct {
		OA string `json:"oa"`
		HkM105
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO151 struct {
		OA string `json:"oa"`
		HkM105
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO152 struct {
		OA string `json:"oa"`
		*HkM105
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO153 struct {
		OA string `json:"oa"`
		*HkM105
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO154 struct {
		OA string `json:"oa"`
		HkM106
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO155 struct {
		OA string `json:"oa"`
		*HkM106
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO156 struct {
		OA string `json:"oa"`
		*HkM106
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO157 struct {
		OA string `json:"oa"`
		HkM107
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO158 struct {
		OA string `json:"oa"`
		*HkM107
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO159 struct {
		OA string `json:"oa"`
		*HkM107
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO160 struct {
		OA string `json:"oa"`
		HkM114
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO161 struct {
		OA string `json:"oa"`
		HkM114
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO162 struct {
		OA string `json:"oa"`
		*HkM114
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO163 struct {
		OA string `json:"oa"`
		*HkM114
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO164 struct {
		OA string `json:"oa"`
		HkM115
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO165 struct {
		OA string `json:"oa"`
		*HkM115
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO166 struct {
		OA string `json:"oa"`
		*HkM115
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO167 struct {
		OA string `json:"oa"`
		HkM116
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO168 struct {
		OA string `json:"oa"`
		*HkM116
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO169 struct {
		OA string `json:"oa"`
		*HkM116
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO170 struct {
		OA string `json:"oa"`
		HkM117
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO171 struct {
		OA string `json:"oa"`
		HkM117
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO172 struct {
		OA string `json:"oa"`
		*HkM117
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO173 struct {
		OA string `json:"oa"`
		*HkM117
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO174 struct {
		OA string `json:"oa"`
		HkM118
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO175 struct {
		OA string `json:"oa"`
		*HkM118
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO176 struct {
		OA string `json:"oa"`
		*HkM118
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO177 struct {
		OA string `json:"oa"`
		HkM119
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO178 struct {
		OA string `json:"oa"`
		*HkM119
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO179 struct {
		OA string `json:"oa"`
		*HkM119
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO180 struct {
		OA string `json:"oa"`
		HkM126
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO181 struct {
		OA string `json:"oa"`
		HkM126
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO182 struct {
		OA string `json:"oa"`
		*HkM126
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO183 struct {
		OA string `json:"oa"`
		*HkM126
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO184 struct {
		OA string `json:"oa"`
		HkM127
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO185 struct {
		OA string `json:"oa"`
		*HkM127
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO186 struct {
		OA string `json:"oa"`
		*HkM127
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO187 struct {
		OA string `json:"oa"`
		HkM128
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO188 struct {
		OA string `json:"oa"`
		*HkM128
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO189 struct {
		OA string `json:"oa"`
		*HkM128
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO190 struct {
		OA string `json:"oa"`
		HkM135
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO191 struct {
		OA string `json:"oa"`
		HkM135
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO192 struct {
		OA string `json:"oa"`
		*HkM135
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO193 struct {
		OA string `json:"oa"`
		*HkM135
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO194 struct {
		OA string `json:"oa"`
		HkM136
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO195 struct {
		OA string `json:"oa"`
		*HkM136
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO196 struct {
		OA string `json:"oa"`
		*HkM136
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO197 struct {
		OA string `json:"oa"`
		HkM137
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO198 struct {
		OA string `json:"oa"`
		*HkM137
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO199 struct {
		OA string `json:"oa"`
		*HkM137
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO200 struct {
		OA string `json:"oa"`
		HkM138
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO201 struct {
		OA string `json:"oa"`
		HkM138
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO202 struct {
		OA string `json:"oa"`
		*HkM138
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO203 struct {
		OA string `json:"oa"`
		*HkM138
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO204 struct {
		OA string `json:"oa"`
		HkM139
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO205 struct {
		OA string `json:"oa"`
		*HkM139
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO206 struct {
		OA string `json:"oa"`
		*HkM139
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO207 struct {
		OA string `json:"oa"`
		HkM140
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO208 struct {
		OA string `json:"oa"`
		*HkM140
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
	HkO209 struct {
		OA string `json:"oa"`
		*HkM140
		ON    int `json:"on"`
		OSeen int `json:"-"`
	}
)

func (s *HkXH) AfterUnmarshal()   { s.XSeen++; hkLog("HkXH", s) }
func (s HkXV) AfterUnmarshal()    { hkLog("HkXV", &s) }
func (s *HkYH) AfterUnmarshal()   { s.YSeen++; hkLog("HkYH", s) }
func (s HkYV) AfterUnmarshal()    { hkLog("HkYV", &s) }
func (s *HkM1) AfterUnmarshal()   { s.MSeen++; hkLog("HkM1", s) }
func (s HkM2) AfterUnmarshal()    { hkLog("HkM2", &s) }
func (s *HkM4) AfterUnmarshal()   { s.MSeen++; hkLog("HkM4", s) }
func (s HkM5) AfterUnmarshal()    { hkLog("HkM5", &s) }
func (s *HkM7) AfterUnmarshal()   { s.MSeen++; hkLog("HkM7", s) }
func (s HkM8) AfterUnmarshal()    { hkLog("HkM8", &s) }
func (s *HkM10) AfterUnmarshal()  { s.MSeen++; hkLog("HkM10", s) }
func (s HkM11) AfterUnmarshal()   { hkLog("HkM11", &s) }
func (s *HkM13) AfterUnmarshal()  { s.MSeen++; hkLog("HkM13", s) }
func (s HkM14) AfterUnmarshal()   { hkLog("HkM14", &s) }
func (s *HkM16) AfterUnmarshal()  { s.MSeen++; hkLog("HkM16", s) }
func (s HkM17) AfterUnmarshal()   { hkLog("HkM17", &s) }
func (s *HkM19) AfterUnmarshal()  { s.MSeen++; hkLog("HkM19", s) }
func (s HkM20) AfterUnmarshal()   { hkLog("HkM20", &s) }
func (s *HkM22) AfterUnmarshal()  { s.MSeen++; hkLog("HkM22", s) }
func (s HkM23) AfterUnmarshal()   { hkLog("HkM23", &s) }
func (s *HkM25) AfterUnmarshal()  { s.MSeen++; hkLog("HkM25", s) }
func (s HkM26) AfterUnmarshal()   { hkLog("HkM26", &s) }
func (s *HkM28) AfterUnmarshal()  { s.MSeen++; hkLog("HkM28", s) }
func (s HkM29) AfterUnmarshal()   { hkLog("HkM29", &s) }
func (s *HkM31) AfterUnmarshal()  { s.MSeen++; hkLog("HkM31", s) }
func (s HkM32) AfterUnmarshal()   { hkLog("HkM32", &s) }
func (s *HkM34) AfterUnmarshal()  { s.MSeen++; hkLog("HkM34", s) }
func (s HkM35) AfterUnmarshal()   { hkLog("HkM35", &s) }
func (s *HkM37) AfterUnmarshal()  { s.MSeen++; hkLog("HkM37", s) }
func (s HkM38) AfterUnmarshal()   { hkLog("HkM38", &s) }
func (s *HkM40) AfterUnmarshal()  { s.MSeen++; hkLog("HkM40", s) }
func (s HkM41) AfterUnmarshal()   { hkLog("HkM41", &s) }
func (s *HkM43) AfterUnmarshal()  { s.MSeen++; hkLog("HkM43", s) }
func (s HkM44) AfterUnmarshal()   { hkLog("HkM44", &s) }
func (s *HkM46) AfterUnmarshal()  { s.MSeen++; hkLog("HkM46", s) }
func (s HkM47) AfterUnmarshal()   { hkLog("HkM47", &s) }
func (s *HkM49) AfterUnmarshal()  { s.MSeen++; hkLog("HkM49", s) }
func (s HkM50) AfterUnmarshal()   { hkLog("HkM50", &s) }
func (s *HkM52) AfterUnmarshal()  { s.MSeen++; hkLog("HkM52", s) }
func (s HkM53) AfterUnmarshal()   { hkLog("HkM53", &s) }
func (s *HkM55) AfterUnmarshal()  { s.MSeen++; hkLog("HkM55", s) }
func (s HkM56) AfterUnmarshal()   { hkLog("HkM56", &s) }
func (s *HkM58) AfterUnmarshal()  { s.MSeen++; hkLog("HkM58", s) }
func (s HkM59) AfterUnmarshal()   { hkLog("HkM59", &s) }
func (s *HkM61) AfterUnmarshal()  { s.MSeen++; hkLog("HkM61", s) }
func (s HkM62) AfterUnmarshal()   { hkLog("HkM62", &s) }
func (s *HkM64) AfterUnmarshal()  { s.MSeen++; hkLog("HkM64", s) }
func (s HkM65) AfterUnmarshal()   { hkLog("HkM65", &s) }
func (s *HkM67) AfterUnmarshal()  { s.MSeen++; hkLog("HkM67", s) }
func (s HkM68) AfterUnmarshal()   { hkLog("HkM68", &s) }
func (s *HkM70) AfterUnmarshal()  { s.MSeen++; hkLog("HkM70", s) }
func (s HkM71) AfterUnmarshal()   { hkLog("HkM71", &s) }
func (s *HkM73) AfterUnmarshal()  { s.MSeen++; hkLog("HkM73", s) }
func (s HkM74) AfterUnmarshal()   { hkLog("HkM74", &s) }
func (s *HkM76) AfterUnmarshal()  { s.MSeen++; hkLog("HkM76", s) }
func (s HkM77) AfterUnmarshal()   { hkLog("HkM77", &s) }
func (s *HkM79) AfterUnmarshal()  { s.MSeen++; hkLog("HkM79", s) }
func (s HkM80) AfterUnmarshal()   { hkLog("HkM80", &s) }
func (s *HkM82) AfterUnmarshal()  { s.MSeen++; hkLog("HkM82", s) }
func (s HkM83) AfterUnmarshal()   { hkLog("HkM83", &s) }
func (s *HkM85) AfterUnmarshal()  { s.MSeen++; hkLog("HkM85", s) }
func (s HkM86) AfterUnmarshal()   { hkLog("HkM86", &s) }
func (s *HkM88) AfterUnmarshal()  { s.MSeen++; hkLog("HkM88", s) }
func (s HkM89) AfterUnmarshal()   { hkLog("HkM89", &s) }
func (s *HkM91) AfterUnmarshal()  { s.MSeen++; hkLog("HkM91", s) }
func (s HkM92) AfterUnmarshal()   { hkLog("HkM92", &s) }
func (s *HkM94) AfterUnmarshal()  { s.MSeen++; hkLog("HkM94", s) }
func (s HkM95) AfterUnmarshal()   { hkLog("HkM95", &s) }
func (s *HkM97) AfterUnmarshal()  { s.MSeen++; hkLog("HkM97", s) }
func (s HkM98) AfterUnmarshal()   { hkLog("HkM98", &s) }
func (s *HkM100) AfterUnmarshal() { s.MSeen++; hkLog("HkM100", s) }
func (s HkM101) AfterUnmarshal()  { hkLog("HkM101", &s) }
func (s *HkM103) AfterUnmarshal() { s.MSeen++; hkLog("HkM103", s) }
func (s HkM104) AfterUnmarshal()  { hkLog("HkM104", &s) }
func (s *HkM106) AfterUnmarshal() { s.MSeen++; hkLog("HkM106", s) }
func (s HkM107) AfterUnmarshal()  { hkLog("HkM107", &s) }
func (s *HkM109) AfterUnmarshal() { s.MSeen++; hkLog("HkM109", s) }
func (s HkM110) AfterUnmarshal()  { hkLog("HkM110", &s) }
func (s *HkM112) AfterUnmarshal() { s.MSeen++; hkLog("HkM112", s) }
func (s HkM113) AfterUnmarshal()  { hkLog("HkM113", &s) }
func (s *HkM115) AfterUnmarshal() { s.MSeen++; hkLog("HkM115", s) }
func (s HkM116) AfterUnmarshal()  { hkLog("HkM116", &s) }
func (s *HkM118) AfterUnmarshal() { s.MSeen++; hkLog("HkM118", s) }
func (s HkM119) AfterUnmarshal()  { hkLog("HkM119", &s) }
func (s *HkM121) AfterUnmarshal() { s.MSeen++; hkLog("HkM121", s) }
func (s HkM122) AfterUnmarshal()  { hkLog("HkM122", &s) }
func (s *HkM124) AfterUnmarshal() { s.MSeen++; hkLog("HkM124", s) }
func (s HkM125) AfterUnmarshal()  { hkLog("HkM125", &s) }
func (s *HkM127) AfterUnmarshal() { s.MSeen++; hkLog("HkM127", s) }
func (s HkM128) AfterUnmarshal()  { hkLog("HkM128", &s) }
func (s *HkM130) AfterUnmarshal() { s.MSeen++; hkLog("HkM130", s) }
func (s HkM131) AfterUnmarshal()  { hkLog("HkM131", &s) }
func (s *HkM133) AfterUnmarshal() { s.MSeen++; hkLog("HkM133", s) }
func (s HkM134) AfterUnmarshal()  { hkLog("HkM134", &s) }
func (s *HkM136) AfterUnmarshal() { s.MSeen++; hkLog("HkM136", s) }
func (s HkM137) AfterUnmarshal()  { hkLog("HkM137", &s) }
func (s *HkM139) AfterUnmarshal() { s.MSeen++; hkLog("HkM139", s) }
func (s HkM140) AfterUnmarshal()  { hkLog("HkM140", &s) }
func (s *HkM142) AfterUnmarshal() { s.MSeen++; hkLog("HkM142", s) }
func (s HkM143) AfterUnmarshal()  { hkLog("HkM143", &s) }
func (s *HkM145) AfterUnmarshal() { s.MSeen++; hkLog("HkM145", s) }
func (s HkM146) AfterUnmarshal()  { hkLog("HkM146", &s) }
func (s *HkO1) AfterUnmarshal()   { s.OSeen++; hkLog("HkO1", s) }
func (s *HkO3) AfterUnmarshal()   { s.OSeen++; hkLog("HkO3", s) }
func (s *HkO4) AfterUnmarshal()   { s.OSeen++; hkLog("HkO4", s) }
func (s *HkO6) AfterUnmarshal()   { s.OSeen++; hkLog("HkO6", s) }
func (s *HkO7) AfterUnmarshal()   { s.OSeen++; hkLog("HkO7", s) }
func (s *HkO9) AfterUnmarshal()   { s.OSeen++; hkLog("HkO9", s) }
func (s *HkO11) AfterUnmarshal()  { s.OSeen++; hkLog("HkO11", s) }
func (s *HkO13) AfterUnmarshal()  { s.OSeen++; hkLog("HkO13", s) }
func (s *HkO14) AfterUnmarshal()  { s.OSeen++; hkLog("HkO14", s) }
func (s *HkO16) AfterUnmarshal()  { s.OSeen++; hkLog("HkO16", s) }
func (s *HkO17) AfterUnmarshal()  { s.OSeen++; hkLog("HkO17", s) }
func (s *HkO19) AfterUnmarshal()  { s.OSeen++; hkLog("HkO19", s) }
func (s *HkO21) AfterUnmarshal()  { s.OSeen++; hkLog("HkO21", s) }
func (s *HkO23) AfterUnmarshal()  { s.OSeen++; hkLog("HkO23", s) }
func (s *HkO24) AfterUnmarshal()  { s.OSeen++; hkLog("HkO24", s) }
func (s *HkO26) AfterUnmarshal()  { s.OSeen++; hkLog("HkO26", s) }
func (s *HkO27) AfterUnmarshal()  { s.OSeen++; hkLog("HkO27", s) }
func (s *HkO29) AfterUnmarshal()  { s.OSeen++; hkLog("HkO29", s) }
func (s *HkO31) AfterUnmarshal()  { s.OSeen++; hkLog("HkO31", s) }
func (s *HkO33) AfterUnmarshal()  { s.OSeen++; hkLog("HkO33", s) }
func (s *HkO34) AfterUnmarshal()  { s.OSeen++; hkLog("HkO34", s) }
func (s *HkO36) AfterUnmarshal()  { s.OSeen++; hkLog("HkO36", s) }
func (s *HkO37) AfterUnmarshal()  { s.OSeen++; hkLog("HkO37", s) }
func (s *HkO39) AfterUnmarshal()  { s.OSeen++; hkLog("HkO39", s) }
func (s *HkO41) AfterUnmarshal()  { s.OSeen++; hkLog("HkO41", s) }
func (s *HkO43) AfterUnmarshal()  { s.OSeen++; hkLog("HkO43", s) }
func (s *HkO44) AfterUnmarshal()  { s.OSeen++; hkLog("HkO44", s) }
func (s *HkO46) AfterUnmarshal()  { s.OSeen++; hkLog("HkO46", s) }
func (s *HkO47) AfterUnmarshal()  { s.OSeen++; hkLog("HkO47", s) }
func (s *HkO49) AfterUnmarshal()  { s.OSeen++; hkLog("HkO49", s) }
func (s *HkO51) AfterUnmarshal()  { s.OSeen++; hkLog("HkO51", s) }
func (s *HkO53) AfterUnmarshal()  { s.OSeen++; hkLog("HkO53", s) }
func (s *HkO54) AfterUnmarshal()  { s.OSeen++; hkLog("HkO54", s) }
func (s *HkO56) AfterUnmarshal()  { s.OSeen++; hkLog("HkO56", s) }
func (s *HkO57) AfterUnmarshal()  { s.OSeen++; hkLog("HkO57", s) }
func (s *HkO59) AfterUnmarshal()  { s.OSeen++; hkLog("HkO59", s) }
func (s *HkO61) AfterUnmarshal()  { s.OSeen++; hkLog("HkO61", s) }
func (s *HkO63) AfterUnmarshal()  { s.OSeen++; hkLog("HkO63", s) }
func (s *HkO64) AfterUnmarshal()  { s.OSeen++; hkLog("HkO64", s) }
func (s *HkO66) AfterUnmarshal()  { s.OSeen++; hkLog("HkO66", s) }
func (s *HkO67) AfterUnmarshal()  { s.OSeen++; hkLog("HkO67", s) }
func (s *HkO69) AfterUnmarshal()  { s.OSeen++; hkLog("HkO69", s) }
func (s *HkO71) AfterUnmarshal()  { s.OSeen++; hkLog("HkO71", s) }
func (s *HkO73) AfterUnmarshal()  { s.OSeen++; hkLog("HkO73", s) }
func (s *HkO74) AfterUnmarshal()  { s.OSeen++; hkLog("HkO74", s) }
func (s *HkO76) AfterUnmarshal()  { s.OSeen++; hkLog("HkO76", s) }
func (s *HkO77) AfterUnmarshal()  { s.OSeen++; hkLog("HkO77", s) }
func (s *HkO79) AfterUnmarshal()  { s.OSeen++; hkLog("HkO79", s) }
func (s *HkO81) AfterUnmarshal()  { s.OSeen++; hkLog("HkO81", s) }
func (s *HkO83) AfterUnmarshal()  { s.OSeen++; hkLog("HkO83", s) }
func (s *HkO84) AfterUnmarshal()  { s.OSeen++; hkLog("HkO84", s) }
func (s *HkO86) AfterUnmarshal()  { s.OSeen++; hkLog("HkO86", s) }
func (s *HkO87) AfterUnmarshal()  { s.OSeen++; hkLog("HkO87", s) }
func (s *HkO89) AfterUnmarshal()  { s.OSeen++; hkLog("HkO89", s) }
func (s *HkO91) AfterUnmarshal()  { s.OSeen++; hkLog("HkO91", s) }
func (s *HkO93) AfterUnmarshal()  { s.OSeen++; hkLog("HkO93", s) }
func (s *HkO94) AfterUnmarshal()  { s.OSeen++; hkLog("HkO94", s) }
func (s *HkO96) AfterUnmarshal()  { s.OSeen++; hkLog("HkO96", s) }
func (s *HkO97) AfterUnmarshal()  { s.OSeen++; hkLog("HkO97", s) }
func (s *HkO99) AfterUnmarshal()  { s.OSeen++; hkLog("HkO99", s) }
func (s *HkO101) AfterUnmarshal() { s.OSeen++; hkLog("HkO101", s) }
func (s *HkO103) AfterUnmarshal() { s.OSeen++; hkLog("HkO103", s) }
func (s *HkO104) AfterUnmarshal() { s.OSeen++; hkLog("HkO104", s) }
func (s *HkO106) AfterUnmarshal() { s.OSeen++; hkLog("HkO106", s) }
func (s *HkO107) AfterUnmarshal() { s.OSeen++; hkLog("HkO107", s) }
func (s *HkO109) AfterUnmarshal() { s.OSeen++; hkLog("HkO109", s) }
func (s *HkO111) AfterUnmarshal() { s.OSeen++; hkLog("HkO111", s) }
func (s *HkO113) AfterUnmarshal() { s.OSeen++; hkLog("HkO113", s) }
func (s *HkO114) AfterUnmarshal() { s.OSeen++; hkLog("HkO114", s) }
func (s *HkO116) AfterUnmarshal() { s.OSeen++; hkLog("HkO116", s) }
func (s *HkO117) AfterUnmarshal() { s.OSeen++; hkLog("HkO117", s) }
func (s *HkO119) AfterUnmarshal() { s.OSeen++; hkLog("HkO119", s) }
func (s *HkO121) AfterUnmarshal() { s.OSeen++; hkLog("HkO121", s) }
func (s *HkO123) AfterUnmarshal() { s.OSeen++; hkLog("HkO123", s) }
func (s *HkO124) AfterUnmarshal() { s.OSeen++; hkLog("HkO124", s) }
func (s *HkO126) AfterUnmarshal() { s.OSeen++; hkLog("HkO126", s) }
func (s *HkO127) AfterUnmarshal() { s.OSeen++; hkLog("HkO127", s) }
func (s *HkO129) AfterUnmarshal() { s.OSeen++; hkLog("HkO129", s) }
func (s *HkO131) AfterUnmarshal() { s.OSeen++; hkLog("HkO131", s) }
func (s *HkO133) AfterUnmarshal() { s.OSeen++; hkLog("HkO133", s) }
func (s *HkO134) AfterUnmarshal() { s.OSeen++; hkLog("HkO134", s) }
func (s *HkO136) AfterUnmarshal() { s.OSeen++; hkLog("HkO136", s) }
func (s *HkO137) AfterUnmarshal() { s.OSeen++; hkLog("HkO137", s) }
func (s *HkO139) AfterUnmarshal() { s.OSeen++; hkLog("HkO139", s) }
func (s *HkO141) AfterUnmarshal() { s.OSeen++; hkLog("HkO141", s) }
func (s *HkO143) AfterUnmarshal() { s.OSeen++; hkLog("HkO143", s) }
func (s *HkO144) AfterUnmarshal() { s.OSeen++; hkLog("HkO144", s) }
func (s *HkO146) AfterUnmarshal() { s.OSeen++; hkLog("HkO146", s) }
func (s *HkO147) AfterUnmarshal() { s.OSeen++; hkLog("HkO147", s) }
func (s *HkO149) AfterUnmarshal() { s.OSeen++; hkLog("HkO149", s) }
func (s *HkO151) AfterUnmarshal() { s.OSeen++; hkLog("HkO151", s) }
func (s *HkO153) AfterUnmarshal() { s.OSeen++; hkLog("HkO153", s) }
func (s *HkO154) AfterUnmarshal() { s.OSeen++; hkLog("HkO154", s) }
func (s *HkO156) AfterUnmarshal() { s.OSeen++; hkLog("HkO156", s) }
func (s *HkO157) AfterUnmarshal() { s.OSeen++; hkLog("HkO157", s) }
func (s *HkO159) AfterUnmarshal() { s.OSeen++; hkLog("HkO159", s) }
func (s *HkO161) AfterUnmarshal() { s.OSeen++; hkLog("HkO161", s) }
func (s *HkO163) AfterUnmarshal() { s.OSeen++; hkLog("HkO163", s) }
func (s *HkO164) AfterUnmarshal() { s.OSeen++; hkLog("HkO164", s) }
func (s *HkO166) AfterUnmarshal() { s.OSeen++; hkLog("HkO166", s) }
func (s *HkO167) AfterUnmarshal() { s.OSeen++; hkLog("HkO167", s) }
func (s *HkO169) AfterUnmarshal() { s.OSeen++; hkLog("HkO169", s) }
func (s *HkO171) AfterUnmarshal() { s.OSeen++; hkLog("HkO171", s) }
func (s *HkO173) AfterUnmarshal() { s.OSeen++; hkLog("HkO173", s) }
func (s *HkO174) AfterUnmarshal() { s.OSeen++; hkLog("HkO174", s) }
func (s *HkO176) AfterUnmarshal() { s.OSeen++; hkLog("HkO176", s) }
func (s *HkO177) AfterUnmarshal() { s.OSeen++; hkLog("HkO177", s) }
func (s *HkO179) AfterUnmarshal() { s.OSeen++; hkLog("HkO179", s) }
func (s *HkO181) AfterUnmarshal() { s.OSeen++; hkLog("HkO181", s) }
func (s *HkO183) AfterUnmarshal() { s.OSeen++; hkLog("HkO183", s) }
func (s *HkO184) AfterUnmarshal() { s.OSeen++; hkLog("HkO184", s) }
func (s *HkO186) AfterUnmarshal() { s.OSeen++; hkLog("HkO186", s) }
func (s *HkO187) AfterUnmarshal() { s.OSeen++; hkLog("HkO187", s) }
func (s *HkO189) AfterUnmarshal() { s.OSeen++; hkLog("HkO189", s) }
func (s *HkO191) AfterUnmarshal() { s.OSeen++; hkLog("HkO191", s) }
func (s *HkO193) AfterUnmarshal() { s.OSeen++; hkLog("HkO193", s) }
func (s *HkO194) AfterUnmarshal() { s.OSeen++; hkLog("HkO194", s) }
func (s *HkO196) AfterUnmarshal() { s.OSeen++; hkLog("HkO196", s) }
func (s *HkO197) AfterUnmarshal() { s.OSeen++; hkLog("HkO197", s) }
func (s *HkO199) AfterUnmarshal() { s.OSeen++; hkLog("HkO199", s) }
func (s *HkO201) AfterUnmarshal() { s.OSeen++; hkLog("HkO201", s) }
func (s *HkO203) AfterUnmarshal() { s.OSeen++; hkLog("HkO203", s) }
func (s *HkO204) AfterUnmarshal() { s.OSeen++; hkLog("HkO204", s) }
func (s *HkO206) AfterUnmarshal() { s.OSeen++; hkLog("HkO206", s) }
func (s *HkO207) AfterUnmarshal() { s.OSeen++; hkLog("HkO207", s) }
func (s *HkO209) AfterUnmarshal() { s.OSeen++; hkLog("HkO209", s) }

var hkTypes = []hkType{
	hkMake[HkX]("HkX", false, false),
	hkMake[HkXH]("HkXH", true, false),
	hkMake[HkXV]("HkXV", true, false),
	hkMake[HkY]("HkY", false, false),
	hkMake[HkYH]("HkYH", true, false),
	hkMake[HkYV]("HkYV", true, false),
	hkMake[HkM0]("HkM0", false, false),
	hkMake[HkM1]("HkM1", true, false),
	hkMake[HkM2]("HkM2", true, false),
	hkMake[HkM3]("HkM3", false, false),
	hkMake[HkM4]("HkM4", true, false),
	hkMake[HkM5]("HkM5", true, false),
	hkMake[HkM6]("HkM6", false, false),
	hkMake[HkM7]("HkM7", true, false),
	hkMake[HkM8]("HkM8", true, false),
	hkMake[HkM9]("HkM9", false, true),
	hkMake[HkM10]("HkM10", true, false),
	hkMake[HkM11]("HkM11", true, false),
	hkMake[HkM12]("HkM12", false, true),
	hkMake[HkM13]("HkM13", true, false),
	hkMake[HkM14]("HkM14", true, false),
	hkMake[HkM15]("HkM15", false, true),
	hkMake[HkM16]("HkM16", true, false),
	hkMake[HkM17]("HkM17", true, false),
	hkMake[HkM18]("HkM18", false, true),
	hkMake[HkM19]("HkM19", true, false),
	hkMake[HkM20]("HkM20", true, false),
	hkMake[HkM21]("HkM21", false, false),
	hkMake[HkM22]("HkM22", true, false),
	hkMake[HkM23]("HkM23", true, false),
	hkMake[HkM24]("HkM24", false, false),
	hkMake[HkM25]("HkM25", true, false),
	hkMake[HkM26]("HkM26", true, false),
	hkMake[HkM27]("HkM27", false, false),
	hkMake[HkM28]("HkM28", true, false),
	hkMake[HkM29]("HkM29", true, false),
	hkMake[HkM30]("HkM30", false, true),
	hkMake[HkM31]("HkM31", true, false),
	hkMake[HkM32]("HkM32", true, false),
	hkMake[HkM33]("HkM33", false, true),
	hkMake[HkM34]("HkM34", true, false),
	hkMake[HkM35]("HkM35", true, false),
	hkMake[HkM36]("HkM36", false, true),
	hkMake[HkM37]("HkM37", true, false),
	hkMake[HkM38]("HkM38", true, false),
	hkMake[HkM39]("HkM39", false, true),
	hkMake[HkM40]("HkM40", true, false),
	hkMake[HkM41]("HkM41", true, false),
	hkMake[HkM42]("HkM42", false, false),
	hkMake[HkM43]("HkM43", true, false),
	hkMake[HkM44]("HkM44", true, false),
	hkMake[HkM45]("HkM45", false, false),
	hkMake[HkM46]("HkM46", true, false),
	hkMake[HkM47]("HkM47", true, false),
	hkMake[HkM48]("HkM48", false, false),
	hkMake[HkM49]("HkM49", true, false),
	hkMake[HkM50]("HkM50", true, false),
	hkMake[HkM51]("HkM51", false, true),
	hkMake[HkM52]("HkM52", true, false),
	hkMake[HkM53]("HkM53", true, false),
	hkMake[HkM54]("HkM54", false, true),
	hkMake[HkM55]("HkM55", true, false),
	hkMake[HkM56]("HkM56", true, false),
	hkMake[HkM57]("HkM57", false, true),
	hkMake[HkM58]("HkM58", true, false),
	hkMake[HkM59]("HkM59", true, false),
	hkMake[HkM60]("HkM60", false, true),
	hkMake[HkM61]("HkM61", true, false),
	hkMake[HkM62]("HkM62", true, false),
	hkMake[HkM63]("HkM63", false, true),
	hkMake[HkM64]("HkM64", true, false),
	hkMake[HkM65]("HkM65", true, false),
	hkMake[HkM66]("HkM66", false, true),
	hkMake[HkM67]("HkM67", true, false),
	hkMake[HkM68]("HkM68", true, false),
	hkMake[HkM69]("HkM69", false, true),
	hkMake[HkM70]("HkM70", true, false),
	hkMake[HkM71]("HkM71", true, false),
	hkMake[HkM72]("HkM72", false, false),
	hkMake[HkM73]("HkM73", true, false),
	hkMake[HkM74]("HkM74", true, false),
	hkMake[HkM75]("HkM75", false, false),
	hkMake[HkM76]("HkM76", true, false),
	hkMake[HkM77]("HkM77", true, false),
	hkMake[HkM78]("HkM78", false, false),
	hkMake[HkM79]("HkM79", true, false),
	hkMake[HkM80]("HkM80", true, false),
	hkMake[HkM81]("HkM81", false, false),
	hkMake[HkM82]("HkM82", true, false),
	hkMake[HkM83]("HkM83", true, false),
	hkMake[HkM84]("HkM84", false, true),
	hkMake[HkM85]("HkM85", true, false),
	hkMake[HkM86]("HkM86", true, false),
	hkMake[HkM87]("HkM87", false, true),
	hkMake[HkM88]("HkM88", true, false),
	hkMake[HkM89]("HkM89", true, false),
	hkMake[HkM90]("HkM90", false, true),
	hkMake[HkM91]("HkM91", true, false),
	hkMake[HkM92]("HkM92", true, false),
	hkMake[HkM93]("HkM93", false, false),
	hkMake[HkM94]("HkM94", true, false),
	hkMake[HkM95]("HkM95", true, false),
	hkMake[HkM96]("HkM96", false, false),
	hkMake[HkM97]("HkM97", true, false),
	hkMake[HkM98]("HkM98", true, false),
	hkMake[HkM99]("HkM99", false, false),
	hkMake[HkM100]("HkM100", true, false),
	hkMake[HkM101]("HkM101", true, false),
	hkMake[HkM102]("HkM102", false, false),
	hkMake[HkM103]("HkM103", true, false),
	hkMake[HkM104]("HkM104", true, false),
	hkMake[HkM105]("HkM105", false, true),
	hkMake[HkM106]("HkM106", true, false),
	hkMake[HkM107]("HkM107", true, false),
	hkMake[HkM108]("HkM108", false, true),
	hkMake[HkM109]("HkM109", true, false),
	hkMake[HkM110]("HkM110", true, false),
	hkMake[HkM111]("HkM111", false, true),
	hkMake[HkM112]("HkM112", true, false),
	hkMake[HkM113]("HkM113", true, false),
	hkMake[HkM114]("HkM114", false, false),
	hkMake[HkM115]("HkM115", true, false),
	hkMake[HkM116]("HkM116", true, false),
	hkMake[HkM117]("HkM117", false, false),
	hkMake[HkM118]("HkM118", true, false),
	hkMake[HkM119]("HkM119", true, false),
	hkMake[HkM120]("HkM120", false, false),
	hkMake[HkM121]("HkM121", true, false),
	hkMake[HkM122]("HkM122", true, false),
	hkMake[HkM123]("HkM123", false, false),
	hkMake[HkM124]("HkM124", true, false),
	hkMake[HkM125]("HkM125", true, false),
	hkMake[HkM126]("HkM126", false, true),
	hkMake[HkM127]("HkM127", true, false),
	hkMake[HkM128]("HkM128", true, false),
	hkMake[HkM129]("HkM129", false, true),
	hkMake[HkM130]("HkM130", true, false),
	hkMake[HkM131]("HkM131", true, false),
	hkMake[HkM132]("HkM132", false, true),
	hkMake[HkM133]("HkM133", true, false),
	hkMake[HkM134]("HkM134", true, false),
	hkMake[HkM135]("HkM135", false, false),
	hkMake[HkM136]("HkM136", true, false),
	hkMake[HkM137]("HkM137", true, false),
	hkMake[HkM138]("HkM138", false, false),
	hkMake[HkM139]("HkM139", true, false),
	hkMake[HkM140]("HkM140", true, false),
	hkMake[HkM141]("HkM141", false, false),
	hkMake[HkM142]("HkM142", true, false),
	hkMake[HkM143]("HkM143", true, false),
	hkMake[HkM144]("HkM144", false, false),
	hkMake[HkM145]("HkM145", true, false),
	hkMake[HkM146]("HkM146", true, false),
	hkMake[HkO0]("HkO0", false, false),
	hkMake[HkO1]("HkO1", true, false),
	hkMake[HkO2]("HkO2", false, false),
	hkMake[HkO3]("HkO3", true, false),
	hkMake[HkO4]("HkO4", true, false),
	hkMake[HkO5]("HkO5", false, true),
	hkMake[HkO6]("HkO6", true, false),
	hkMake[HkO7]("HkO7", true, false),
	hkMake[HkO8]("HkO8", false, true),
	hkMake[HkO9]("HkO9", true, false),
	hkMake[HkO10]("HkO10", false, true),
	hkMake[HkO11]("HkO11", true, true),
	hkMake[HkO12]("HkO12", false, true),
	hkMake[HkO13]("HkO13", true, true),
	hkMake[HkO14]("HkO14", true, false),
	hkMake[HkO15]("HkO15", false, true),
	hkMake[HkO16]("HkO16", true, false),
	hkMake[HkO17]("HkO17", true, false),
	hkMake[HkO18]("HkO18", false, true),
	hkMake[HkO19]("HkO19", true, false),
	hkMake[HkO20]("HkO20", false, true),
	hkMake[HkO21]("HkO21", true, true),
	hkMake[HkO22]("HkO22", false, true),
	hkMake[HkO23]("HkO23", true, true),
	hkMake[HkO24]("HkO24", true, false),
	hkMake[HkO25]("HkO25", false, true),
	hkMake[HkO26]("HkO26", true, false),
	hkMake[HkO27]("HkO27", true, false),
	hkMake[HkO28]("HkO28", false, true),
	hkMake[HkO29]("HkO29", true, false),
	hkMake[HkO30]("HkO30", false, false),
	hkMake[HkO31]("HkO31", true, false),
	hkMake[HkO32]("HkO32", false, false),
	hkMake[HkO33]("HkO33", true, false),
	hkMake[HkO34]("HkO34", true, false),
	hkMake[HkO35]("HkO35", false, true),
	hkMake[HkO36]("HkO36", true, false),
	hkMake[HkO37]("HkO37", true, false),
	hkMake[HkO38]("HkO38", false, true),
	hkMake[HkO39]("HkO39", true, false),
	hkMake[HkO40]("HkO40", false, true),
	hkMake[HkO41]("HkO41", true, true),
	hkMake[HkO42]("HkO42", false, true),
	hkMake[HkO43]("HkO43", true, true),
	hkMake[HkO44]("HkO44", true, false),
	hkMake[HkO45]("HkO45", false, true),
	hkMake[HkO46]("HkO46", true, false),
	hkMake[HkO47]("HkO47", true, false),
	hkMake[HkO48]("HkO48", false, true),
	hkMake[HkO49]("HkO49", true, false),
	hkMake[HkO50]("HkO50", false, true),
	hkMake[HkO51]("HkO51", true, true),
	hkMake[HkO52]("HkO52", false, true),
	hkMake[HkO53]("HkO53", true, true),
	hkMake[HkO54]("HkO54", true, false),
	hkMake[HkO55]("HkO55", false, true),
	hkMake[HkO56]("HkO56", true, false),
	hkMake[HkO57]("HkO57", true, false),
	hkMake[HkO58]("HkO58", false, true),
	hkMake[HkO59]("HkO59", true, false),
	hkMake[HkO60]("HkO60", false, false),
	hkMake[HkO61]("HkO61", true, false),
	hkMake[HkO62]("HkO62", false, false),
	hkMake[HkO63]("HkO63", true, false),
	hkMake[HkO64]("HkO64", true, false),
	hkMake[HkO65]("HkO65", false, true),
	hkMake[HkO66]("HkO66", true, false),
	hkMake[HkO67]("HkO67", true, false),
	hkMake[HkO68]("HkO68", false, true),
	hkMake[HkO69]("HkO69", true, false),
	hkMake[HkO70]("HkO70", false, true),
	hkMake[HkO71]("HkO71", true, true),
	hkMake[HkO72]("HkO72", false, true),
	hkMake[HkO73]("HkO73", true, true),
	hkMake[HkO74]("HkO74", true, false),
	hkMake[HkO75]("HkO75", false, true),
	hkMake[HkO76]("HkO76", true, false),
	hkMake[HkO77]("HkO77", true, false),
	hkMake[HkO78]("HkO78", false, true),
	hkMake[HkO79]("HkO79", true, false),
	hkMake[HkO80]("HkO80", false, true),
	hkMake[HkO81]("HkO81", true, true),
	hkMake[HkO82]("HkO82", false, true),
	hkMake[HkO83]("HkO83", true, true),
	hkMake[HkO84]("HkO84", true, false),
	hkMake[HkO85]("HkO85", false, true),
	hkMake[HkO86]("HkO86", true, false),
	hkMake[HkO87]("HkO87", true, false),
	hkMake[HkO88]("HkO88", false, true),
	hkMake[HkO89]("HkO89", true, false),
	hkMake[HkO90]("HkO90", false, true),
	hkMake[HkO91]("HkO91", true, true),
	hkMake[HkO92]("HkO92", false, true),
	hkMake[HkO93]("HkO93", true, true),
	hkMake[HkO94]("HkO94", true, false),
	hkMake[HkO95]("HkO95", false, true),
	hkMake[HkO96]("HkO96", true, false),
	hkMake[HkO97]("HkO97", true, false),
	hkMake[HkO98]("HkO98", false, true),
	hkMake[HkO99]("HkO99", true, false),
	hkMake[HkO100]("HkO100", false, false),
	hkMake[HkO101]("HkO101", true, false),
	hkMake[HkO102]("HkO102", false, false),
	hkMake[HkO103]("HkO103", true, false),
	hkMake[HkO104]("HkO104", true, false),
	hkMake[HkO105]("HkO105", false, true),
	hkMake[HkO106]("HkO106", true, false),
	hkMake[HkO107]("HkO107", true, false),
	hkMake[HkO108]("HkO108", false, true),
	hkMake[HkO109]("HkO109", true, false),
	hkMake[HkO110]("HkO110", false, false),
	hkMake[HkO111]("HkO111", true, false),
	hkMake[HkO112]("HkO112", false, false),
	hkMake[HkO113]("HkO113", true, false),
	hkMake[HkO114]("HkO114", true, false),
	hkMake[HkO115]("HkO115", false, true),
	hkMake[HkO116]("HkO116", true, false),
	hkMake[HkO117]("HkO117", true, false),
	hkMake[HkO118]("HkO118", false, true),
	hkMake[HkO119]("HkO119", true, false),
	hkMake[HkO120]("HkO120", false, true),
	hkMake[HkO121]("HkO121", true, true),
	hkMake[HkO122]("HkO122", false, true),
	hkMake[HkO123]("HkO123", true, true),
	hkMake[HkO124]("HkO124", true, false),
	hkMake[HkO125]("HkO125", false, true),
	hkMake[HkO126]("HkO126", true, false),
	hkMake[HkO127]("HkO127", true, false),
	hkMake[HkO128]("HkO128", false, true),
	hkMake[HkO129]("HkO129", true, false),
	hkMake[HkO130]("HkO130", false, false),
	hkMake[HkO131]("HkO131", true, false),
	hkMake[HkO132]("HkO132", false, false),
	hkMake[HkO133]("HkO133", true, false),
	hkMake[HkO134]("HkO134", true, false),
	hkMake[HkO135]("HkO135", false, true),
	hkMake[HkO136]("HkO136", true, false),
	hkMake[HkO137]("HkO137", true, false),
	hkMake[HkO138]("HkO138", false, true),
	hkMake[HkO139]("HkO139", true, false),
	hkMake[HkO140]("HkO140", false, false),
	hkMake[HkO141]("HkO141", true, false),
	hkMake[HkO142]("HkO142", false, false),
	hkMake[HkO143]("HkO143", true, false),
	hkMake[HkO144]("HkO144", true, false),
	hkMake[HkO145]("HkO145", false, true),
	hkMake[HkO146]("HkO146", true, false),
	hkMake[HkO147]("HkO147", true, false),
	hkMake[HkO148]("HkO148", false, true),
	hkMake[HkO149]("HkO149", true, false),
	hkMake[HkO150]("HkO150", false, true),
	hkMake[HkO151]("HkO151", true, true),
	hkMake[HkO152]("HkO152", false, true),
	hkMake[HkO153]("HkO153", true, true),
	hkMake[HkO154]("HkO154", true, false),
	hkMake[HkO155]("HkO155", false, true),
	hkMake[HkO156]("HkO156", true, false),
	hkMake[HkO157]("HkO157", true, false),
	hkMake[HkO158]("HkO158", false, true),
	hkMake[HkO159]("HkO159", true, false),
	hkMake[HkO160]("HkO160", false, false),
	hkMake[HkO161]("HkO161", true, false),
	hkMake[HkO162]("HkO162", false, false),
	hkMake[HkO163]("HkO163", true, false),
	hkMake[HkO164]("HkO164", true, false),
	hkMake[HkO165]("HkO165", false, true),
	hkMake[HkO166]("HkO166", true, false),
	hkMake[HkO167]("HkO167", true, false),
	hkMake[HkO168]("HkO168", false, true),
	hkMake[HkO169]("HkO169", true, false),
	hkMake[HkO170]("HkO170", false, false),
	hkMake[HkO171]("HkO171", true, false),
	hkMake[HkO172]("HkO172", false, false),
	hkMake[HkO173]("HkO173", true, false),
	hkMake[HkO174]("HkO174", true, false),
	hkMake[HkO175]("HkO175", false, true),
	hkMake[HkO176]("HkO176", true, false),
	hkMake[HkO177]("HkO177", true, false),
	hkMake[HkO178]("HkO178", false, true),
	hkMake[HkO179]("HkO179", true, false),
	hkMake[HkO180]("HkO180", false, true),
	hkMake[HkO181]("HkO181", true, true),
	hkMake[HkO182]("HkO182", false, true),
	hkMake[HkO183]("HkO183", true, true),
	hkMake[HkO184]("HkO184", true, false),
	hkMake[HkO185]("HkO185", false, true),
	hkMake[HkO186]("HkO186", true, false),
	hkMake[HkO187]("HkO187", true, false),
	hkMake[HkO188]("HkO188", false, true),
	hkMake[HkO189]("HkO189", true, false),
	hkMake[HkO190]("HkO190", false, false),
	hkMake[HkO191]("HkO191", true, false),
	hkMake[HkO192]("HkO192", false, false),
	hkMake[HkO193]("HkO193", true, false),
	hkMake[HkO194]("HkO194", true, false),
	hkMake[HkO195]("HkO195", false, true),
	hkMake[HkO196]("HkO196", true, false),
	hkMake[HkO197]("HkO197", true, false),
	hkMake[HkO198]("HkO198", false, true),
	hkMake[HkO199]("HkO199", true, false),
	hkMake[HkO200]("HkO200", false, false),
	hkMake[HkO201]("HkO201", true, false),
	hkMake[HkO202]("HkO202", false, false),
	hkMake[HkO203]("HkO203", true, false),
	hkMake[HkO204]("HkO204", true, false),
	hkMake[HkO205]("HkO205", false, true),
	hkMake[HkO206]("HkO206", true, false),
	hkMake[HkO207]("HkO207", true, false),
	hkMake[HkO208]("HkO208", false, true),
	hkMake[HkO209]("HkO209", true, false),
}

.text
.macro rsim_stub id, name
.globl \name
.type \name,@function
\name: mov r11d, \id
jmp rsim_blas_common
.endm
rsim_stub 0, caxpby_
rsim_stub 1, caxpy_
rsim_stub 2, caxpyc_
rsim_stub 3, cbbcsd_
rsim_stub 4, cbdsqr_
rsim_stub 5, cblas_caxpby
rsim_stub 6, cblas_caxpy
rsim_stub 7, cblas_ccopy
rsim_stub 8, cblas_cdotc
rsim_stub 9, cblas_cdotc_sub
rsim_stub 10, cblas_cdotu
rsim_stub 11, cblas_cdotu_sub
rsim_stub 12, cblas_cgbmv
rsim_stub 13, cblas_cgeadd
rsim_stub 14, cblas_cgemm
rsim_stub 15, cblas_cgemm3m
rsim_stub 16, cblas_cgemmt
rsim_stub 17, cblas_cgemv
rsim_stub 18, cblas_cgerc
rsim_stub 19, cblas_cgeru
rsim_stub 20, cblas_chbmv
rsim_stub 21, cblas_chemm
rsim_stub 22, cblas_chemv
rsim_stub 23, cblas_cher
rsim_stub 24, cblas_cher2
rsim_stub 25, cblas_cher2k
rsim_stub 26, cblas_cherk
rsim_stub 27, cblas_chpmv
rsim_stub 28, cblas_chpr
rsim_stub 29, cblas_chpr2
rsim_stub 30, cblas_cimatcopy
rsim_stub 31, cblas_comatcopy
rsim_stub 32, cblas_crotg
rsim_stub 33, cblas_cscal
rsim_stub 34, cblas_csrot
rsim_stub 35, cblas_csscal
rsim_stub 36, cblas_cswap
rsim_stub 37, cblas_csymm
rsim_stub 38, cblas_csyr2k
rsim_stub 39, cblas_csyrk
rsim_stub 40, cblas_ctbmv
rsim_stub 41, cblas_ctbsv
rsim_stub 42, cblas_ctpmv
rsim_stub 43, cblas_ctpsv
rsim_stub 44, cblas_ctrmm
rsim_stub 45, cblas_ctrmv
rsim_stub 46, cblas_ctrsm
rsim_stub 47, cblas_ctrsv
rsim_stub 48, cblas_dasum
rsim_stub 49, cblas_daxpby
rsim_stub 50, cblas_daxpy
rsim_stub 51, cblas_dcopy
rsim_stub 52, cblas_ddot
rsim_stub 53, cblas_dgbmv
rsim_stub 54, cblas_dgeadd
rsim_stub 55, cblas_dgemm
rsim_stub 56, cblas_dgemmt
rsim_stub 57, cblas_dgemv
rsim_stub 58, cblas_dger
rsim_stub 59, cblas_dimatcopy
rsim_stub 60, cblas_dnrm2
rsim_stub 61, cblas_domatcopy
rsim_stub 62, cblas_drot
rsim_stub 63, cblas_drotg
rsim_stub 64, cblas_drotm
rsim_stub 65, cblas_drotmg
rsim_stub 66, cblas_dsbmv
rsim_stub 67, cblas_dscal
rsim_stub 68, cblas_dsdot
rsim_stub 69, cblas_dspmv
rsim_stub 70, cblas_dspr
rsim_stub 71, cblas_dspr2
rsim_stub 72, cblas_dsum
rsim_stub 73, cblas_dswap
rsim_stub 74, cblas_dsymm
rsim_stub 75, cblas_dsymv
rsim_stub 76, cblas_dsyr
rsim_stub 77, cblas_dsyr2
rsim_stub 78, cblas_dsyr2k
rsim_stub 79, cblas_dsyrk
rsim_stub 80, cblas_dtbmv
rsim_stub 81, cblas_dtbsv
rsim_stub 82, cblas_dtpmv
rsim_stub 83, cblas_dtpsv
rsim_stub 84, cblas_dtrmm
rsim_stub 85, cblas_dtrmv
rsim_stub 86, cblas_dtrsm
rsim_stub 87, cblas_dtrsv
rsim_stub 88, cblas_dzasum
rsim_stub 89, cblas_dznrm2
rsim_stub 90, cblas_dzsum
rsim_stub 91, cblas_icamax
rsim_stub 92, cblas_icamin
rsim_stub 93, cblas_icmax
rsim_stub 94, cblas_icmin
rsim_stub 95, cblas_idamax
rsim_stub 96, cblas_idamin
rsim_stub 97, cblas_idmax
rsim_stub 98, cblas_idmin
rsim_stub 99, cblas_isamax
rsim_stub 100, cblas_isamin
rsim_stub 101, cblas_ismax
rsim_stub 102, cblas_ismin
rsim_stub 103, cblas_izamax
rsim_stub 104, cblas_izamin
rsim_stub 105, cblas_izmax
rsim_stub 106, cblas_izmin
rsim_stub 107, cblas_sasum
rsim_stub 108, cblas_saxpby
rsim_stub 109, cblas_saxpy
rsim_stub 110, cblas_scasum
rsim_stub 111, cblas_scnrm2
rsim_stub 112, cblas_scopy
rsim_stub 113, cblas_scsum
rsim_stub 114, cblas_sdot
rsim_stub 115, cblas_sdsdot
rsim_stub 116, cblas_sgbmv
rsim_stub 117, cblas_sgeadd
rsim_stub 118, cblas_sgemm
rsim_stub 119, cblas_sgemmt
rsim_stub 120, cblas_sgemv
rsim_stub 121, cblas_sger
rsim_stub 122, cblas_simatcopy
rsim_stub 123, cblas_snrm2
rsim_stub 124, cblas_somatcopy
rsim_stub 125, cblas_srot
rsim_stub 126, cblas_srotg
rsim_stub 127, cblas_srotm
rsim_stub 128, cblas_srotmg
rsim_stub 129, cblas_ssbmv
rsim_stub 130, cblas_sscal
rsim_stub 131, cblas_sspmv
rsim_stub 132, cblas_sspr
rsim_stub 133, cblas_sspr2
rsim_stub 134, cblas_ssum
rsim_stub 135, cblas_sswap
rsim_stub 136, cblas_ssymm
rsim_stub 137, cblas_ssymv
rsim_stub 138, cblas_ssyr
rsim_stub 139, cblas_ssyr2
rsim_stub 140, cblas_ssyr2k
rsim_stub 141, cblas_ssyrk
rsim_stub 142, cblas_stbmv
rsim_stub 143, cblas_stbsv
rsim_stub 144, cblas_stpmv
rsim_stub 145, cblas_stpsv
rsim_stub 146, cblas_strmm
rsim_stub 147, cblas_strmv
rsim_stub 148, cblas_strsm
rsim_stub 149, cblas_strsv
rsim_stub 150, cblas_zaxpby
rsim_stub 151, cblas_zaxpy
rsim_stub 152, cblas_zcopy
rsim_stub 153, cblas_zdotc
rsim_stub 154, cblas_zdotc_sub
rsim_stub 155, cblas_zdotu
rsim_stub 156, cblas_zdotu_sub
rsim_stub 157, cblas_zdrot
rsim_stub 158, cblas_zdscal
rsim_stub 159, cblas_zgbmv
rsim_stub 160, cblas_zgeadd
rsim_stub 161, cblas_zgemm
rsim_stub 162, cblas_zgemm3m
rsim_stub 163, cblas_zgemmt
rsim_stub 164, cblas_zgemv
rsim_stub 165, cblas_zgerc
rsim_stub 166, cblas_zgeru
rsim_stub 167, cblas_zhbmv
rsim_stub 168, cblas_zhemm
rsim_stub 169, cblas_zhemv
rsim_stub 170, cblas_zher
rsim_stub 171, cblas_zher2
rsim_stub 172, cblas_zher2k
rsim_stub 173, cblas_zherk
rsim_stub 174, cblas_zhpmv
rsim_stub 175, cblas_zhpr
rsim_stub 176, cblas_zhpr2
rsim_stub 177, cblas_zimatcopy
rsim_stub 178, cblas_zomatcopy
rsim_stub 179, cblas_zrotg
rsim_stub 180, cblas_zscal
rsim_stub 181, cblas_zswap
rsim_stub 182, cblas_zsymm
rsim_stub 183, cblas_zsyr2k
rsim_stub 184, cblas_zsyrk
rsim_stub 185, cblas_ztbmv
rsim_stub 186, cblas_ztbsv
rsim_stub 187, cblas_ztpmv
rsim_stub 188, cblas_ztpsv
rsim_stub 189, cblas_ztrmm
rsim_stub 190, cblas_ztrmv
rsim_stub 191, cblas_ztrsm
rsim_stub 192, cblas_ztrsv
rsim_stub 193, ccopy_
rsim_stub 194, cdotc_
rsim_stub 195, cdotu_
rsim_stub 196, cgbbrd_
rsim_stub 197, cgbcon_
rsim_stub 198, cgbequ_
rsim_stub 199, cgbequb_
rsim_stub 200, cgbmv_
rsim_stub 201, cgbrfs_
rsim_stub 202, cgbsv_
rsim_stub 203, cgbsvx_
rsim_stub 204, cgbtf2_
rsim_stub 205, cgbtrf_
rsim_stub 206, cgbtrs_
rsim_stub 207, cgeadd_
rsim_stub 208, cgebak_
rsim_stub 209, cgebal_
rsim_stub 210, cgebd2_
rsim_stub 211, cgebrd_
rsim_stub 212, cgecon_
rsim_stub 213, cgedmd_
rsim_stub 214, cgedmdq_
rsim_stub 215, cgeequ_
rsim_stub 216, cgeequb_
rsim_stub 217, cgees_
rsim_stub 218, cgeesx_
rsim_stub 219, cgeev_
rsim_stub 220, cgeevx_
rsim_stub 221, cgegs_
rsim_stub 222, cgegv_
rsim_stub 223, cgehd2_
rsim_stub 224, cgehrd_
rsim_stub 225, cgejsv_
rsim_stub 226, cgelq2_
rsim_stub 227, cgelq_
rsim_stub 228, cgelqf_
rsim_stub 229, cgelqs_
rsim_stub 230, cgelqt3_
rsim_stub 231, cgelqt_
rsim_stub 232, cgels_
rsim_stub 233, cgelsd_
rsim_stub 234, cgelss_
rsim_stub 235, cgelst_
rsim_stub 236, cgelsx_
rsim_stub 237, cgelsy_
rsim_stub 238, cgemlq_
rsim_stub 239, cgemlqt_
rsim_stub 240, cgemm3m_
rsim_stub 241, cgemm_
rsim_stub 242, cgemmt_
rsim_stub 243, cgemqr_
rsim_stub 244, cgemqrt_
rsim_stub 245, cgemv_
rsim_stub 246, cgeql2_
rsim_stub 247, cgeqlf_
rsim_stub 248, cgeqp3_
rsim_stub 249, cgeqp3rk_
rsim_stub 250, cgeqpf_
rsim_stub 251, cgeqr2_
rsim_stub 252, cgeqr2p_
rsim_stub 253, cgeqr_
rsim_stub 254, cgeqrf_
rsim_stub 255, cgeqrfp_
rsim_stub 256, cgeqrs_
rsim_stub 257, cgeqrt2_
rsim_stub 258, cgeqrt3_
rsim_stub 259, cgeqrt_
rsim_stub 260, cgerc_
rsim_stub 261, cgerfs_
rsim_stub 262, cgerq2_
rsim_stub 263, cgerqf_
rsim_stub 264, cgeru_
rsim_stub 265, cgesc2_
rsim_stub 266, cgesdd_
rsim_stub 267, cgesv_
rsim_stub 268, cgesvd_
rsim_stub 269, cgesvdq_
rsim_stub 270, cgesvdx_
rsim_stub 271, cgesvj_
rsim_stub 272, cgesvx_
rsim_stub 273, cgetc2_
rsim_stub 274, cgetf2_
rsim_stub 275, cgetrf2_
rsim_stub 276, cgetrf_
rsim_stub 277, cgetri_
rsim_stub 278, cgetrs_
rsim_stub 279, cgetsls_
rsim_stub 280, cgetsqrhrt_
rsim_stub 281, cggbak_
rsim_stub 282, cggbal_
rsim_stub 283, cgges3_
rsim_stub 284, cgges_
rsim_stub 285, cggesx_
rsim_stub 286, cggev3_
rsim_stub 287, cggev_
rsim_stub 288, cggevx_
rsim_stub 289, cggglm_
rsim_stub 290, cgghd3_
rsim_stub 291, cgghrd_
rsim_stub 292, cgglse_
rsim_stub 293, cggqrf_
rsim_stub 294, cggrqf_
rsim_stub 295, cggsvd3_
rsim_stub 296, cggsvd_
rsim_stub 297, cggsvp3_
rsim_stub 298, cggsvp_
rsim_stub 299, cgsvj0_
rsim_stub 300, cgsvj1_
rsim_stub 301, cgtcon_
rsim_stub 302, cgtrfs_
rsim_stub 303, cgtsv_
rsim_stub 304, cgtsvx_
rsim_stub 305, cgttrf_
rsim_stub 306, cgttrs_
rsim_stub 307, cgtts2_
rsim_stub 308, chb2st_kernels_
rsim_stub 309, chbev_
rsim_stub 310, chbev_2stage_
rsim_stub 311, chbevd_
rsim_stub 312, chbevd_2stage_
rsim_stub 313, chbevx_
rsim_stub 314, chbevx_2stage_
rsim_stub 315, chbgst_
rsim_stub 316, chbgv_
rsim_stub 317, chbgvd_
rsim_stub 318, chbgvx_
rsim_stub 319, chbmv_
rsim_stub 320, chbtrd_
rsim_stub 321, checon_
rsim_stub 322, checon_3_
rsim_stub 323, checon_rook_
rsim_stub 324, cheequb_
rsim_stub 325, cheev_
rsim_stub 326, cheev_2stage_
rsim_stub 327, cheevd_
rsim_stub 328, cheevd_2stage_
rsim_stub 329, cheevr_
rsim_stub 330, cheevr_2stage_
rsim_stub 331, cheevx_
rsim_stub 332, cheevx_2stage_
rsim_stub 333, chegs2_
rsim_stub 334, chegst_
rsim_stub 335, chegv_
rsim_stub 336, chegv_2stage_
rsim_stub 337, chegvd_
rsim_stub 338, chegvx_
rsim_stub 339, chemm_
rsim_stub 340, chemv_
rsim_stub 341, cher2_
rsim_stub 342, cher2k_
rsim_stub 343, cher_
rsim_stub 344, cherfs_
rsim_stub 345, cherk_
rsim_stub 346, chesv_
rsim_stub 347, chesv_aa_
rsim_stub 348, chesv_aa_2stage_
rsim_stub 349, chesv_rk_
rsim_stub 350, chesv_rook_
rsim_stub 351, chesvx_
rsim_stub 352, cheswapr_
rsim_stub 353, chetd2_
rsim_stub 354, chetf2_
rsim_stub 355, chetf2_rk_
rsim_stub 356, chetf2_rook_
rsim_stub 357, chetrd_
rsim_stub 358, chetrd_2stage_
rsim_stub 359, chetrd_hb2st_
rsim_stub 360, chetrd_he2hb_
rsim_stub 361, chetrf_
rsim_stub 362, chetrf_aa_
rsim_stub 363, chetrf_aa_2stage_
rsim_stub 364, chetrf_rk_
rsim_stub 365, chetrf_rook_
rsim_stub 366, chetri2_
rsim_stub 367, chetri2x_
rsim_stub 368, chetri_
rsim_stub 369, chetri_3_
rsim_stub 370, chetri_3x_
rsim_stub 371, chetri_rook_
rsim_stub 372, chetrs2_
rsim_stub 373, chetrs_
rsim_stub 374, chetrs_3_
rsim_stub 375, chetrs_aa_
rsim_stub 376, chetrs_aa_2stage_
rsim_stub 377, chetrs_rook_
rsim_stub 378, chfrk_
rsim_stub 379, chgeqz_
rsim_stub 380, chla_transtype_
rsim_stub 381, chpcon_
rsim_stub 382, chpev_
rsim_stub 383, chpevd_
rsim_stub 384, chpevx_
rsim_stub 385, chpgst_
rsim_stub 386, chpgv_
rsim_stub 387, chpgvd_
rsim_stub 388, chpgvx_
rsim_stub 389, chpmv_
rsim_stub 390, chpr2_
rsim_stub 391, chpr_
rsim_stub 392, chprfs_
rsim_stub 393, chpsv_
rsim_stub 394, chpsvx_
rsim_stub 395, chptrd_
rsim_stub 396, chptrf_
rsim_stub 397, chptri_
rsim_stub 398, chptrs_
rsim_stub 399, chsein_
rsim_stub 400, chseqr_
rsim_stub 401, cimatcopy_
rsim_stub 402, clabrd_
rsim_stub 403, clacgv_
rsim_stub 404, clacn2_
rsim_stub 405, clacon_
rsim_stub 406, clacp2_
rsim_stub 407, clacpy_
rsim_stub 408, clacrm_
rsim_stub 409, clacrt_
rsim_stub 410, cladiv_
rsim_stub 411, claed0_
rsim_stub 412, claed7_
rsim_stub 413, claed8_
rsim_stub 414, claein_
rsim_stub 415, claesy_
rsim_stub 416, claev2_
rsim_stub 417, clag2z_
rsim_stub 418, clags2_
rsim_stub 419, clagtm_
rsim_stub 420, clahef_
rsim_stub 421, clahef_aa_
rsim_stub 422, clahef_rk_
rsim_stub 423, clahef_rook_
rsim_stub 424, clahqr_
rsim_stub 425, clahr2_
rsim_stub 426, clahrd_
rsim_stub 427, claic1_
rsim_stub 428, clals0_
rsim_stub 429, clalsa_
rsim_stub 430, clalsd_
rsim_stub 431, clamswlq_
rsim_stub 432, clamtsqr_
rsim_stub 433, clangb_
rsim_stub 434, clange_
rsim_stub 435, clangt_
rsim_stub 436, clanhb_
rsim_stub 437, clanhe_
rsim_stub 438, clanhf_
rsim_stub 439, clanhp_
rsim_stub 440, clanhs_
rsim_stub 441, clanht_
rsim_stub 442, clansb_
rsim_stub 443, clansp_
rsim_stub 444, clansy_
rsim_stub 445, clantb_
rsim_stub 446, clantp_
rsim_stub 447, clantr_
rsim_stub 448, clapll_
rsim_stub 449, clapmr_
rsim_stub 450, clapmt_
rsim_stub 451, claqgb_
rsim_stub 452, claqge_
rsim_stub 453, claqhb_
rsim_stub 454, claqhe_
rsim_stub 455, claqhp_
rsim_stub 456, claqp2_
rsim_stub 457, claqp2rk_
rsim_stub 458, claqp3rk_
rsim_stub 459, claqps_
rsim_stub 460, claqr0_
rsim_stub 461, claqr1_
rsim_stub 462, claqr2_
rsim_stub 463, claqr3_
rsim_stub 464, claqr4_
rsim_stub 465, claqr5_
rsim_stub 466, claqsb_
rsim_stub 467, claqsp_
rsim_stub 468, claqsy_
rsim_stub 469, claqz0_
rsim_stub 470, claqz1_
rsim_stub 471, claqz2_
rsim_stub 472, claqz3_
rsim_stub 473, clar1v_
rsim_stub 474, clar2v_
rsim_stub 475, clarcm_
rsim_stub 476, clarf_
rsim_stub 477, clarfb_
rsim_stub 478, clarfb_gett_
rsim_stub 479, clarfg_
rsim_stub 480, clarfgp_
rsim_stub 481, clarft_
rsim_stub 482, clarfx_
rsim_stub 483, clarfy_
rsim_stub 484, clargv_
rsim_stub 485, clarnv_
rsim_stub 486, clarrv_
rsim_stub 487, clartg_
rsim_stub 488, clartv_
rsim_stub 489, clarz_
rsim_stub 490, clarzb_
rsim_stub 491, clarzt_
rsim_stub 492, clascl_
rsim_stub 493, claset_
rsim_stub 494, clasr_
rsim_stub 495, classq_
rsim_stub 496, claswlq_
rsim_stub 497, claswp_
rsim_stub 498, clasyf_
rsim_stub 499, clasyf_aa_
rsim_stub 500, clasyf_rk_
rsim_stub 501, clasyf_rook_
rsim_stub 502, clatbs_
rsim_stub 503, clatdf_
rsim_stub 504, clatps_
rsim_stub 505, clatrd_
rsim_stub 506, clatrs3_
rsim_stub 507, clatrs_
rsim_stub 508, clatrz_
rsim_stub 509, clatsqr_
rsim_stub 510, clatzm_
rsim_stub 511, claunhr_col_getrfnp2_
rsim_stub 512, claunhr_col_getrfnp_
rsim_stub 513, clauu2_
rsim_stub 514, clauum_
rsim_stub 515, comatcopy_
rsim_stub 516, cpbcon_
rsim_stub 517, cpbequ_
rsim_stub 518, cpbrfs_
rsim_stub 519, cpbstf_
rsim_stub 520, cpbsv_
rsim_stub 521, cpbsvx_
rsim_stub 522, cpbtf2_
rsim_stub 523, cpbtrf_
rsim_stub 524, cpbtrs_
rsim_stub 525, cpftrf_
rsim_stub 526, cpftri_
rsim_stub 527, cpftrs_
rsim_stub 528, cpocon_
rsim_stub 529, cpoequ_
rsim_stub 530, cpoequb_
rsim_stub 531, cporfs_
rsim_stub 532, cposv_
rsim_stub 533, cposvx_
rsim_stub 534, cpotf2_
rsim_stub 535, cpotrf2_
rsim_stub 536, cpotrf_
rsim_stub 537, cpotri_
rsim_stub 538, cpotrs_
rsim_stub 539, cppcon_
rsim_stub 540, cppequ_
rsim_stub 541, cpprfs_
rsim_stub 542, cppsv_
rsim_stub 543, cppsvx_
rsim_stub 544, cpptrf_
rsim_stub 545, cpptri_
rsim_stub 546, cpptrs_
rsim_stub 547, cpstf2_
rsim_stub 548, cpstrf_
rsim_stub 549, cptcon_
rsim_stub 550, cpteqr_
rsim_stub 551, cptrfs_
rsim_stub 552, cptsv_
rsim_stub 553, cptsvx_
rsim_stub 554, cpttrf_
rsim_stub 555, cpttrs_
rsim_stub 556, cptts2_
rsim_stub 557, crot_
rsim_stub 558, crotg_
rsim_stub 559, crscl_
rsim_stub 560, csbmv_
rsim_stub 561, cscal_
rsim_stub 562, cspcon_
rsim_stub 563, cspmv_
rsim_stub 564, cspr2_
rsim_stub 565, cspr_
rsim_stub 566, csprfs_
rsim_stub 567, cspsv_
rsim_stub 568, cspsvx_
rsim_stub 569, csptrf_
rsim_stub 570, csptri_
rsim_stub 571, csptrs_
rsim_stub 572, csrot_
rsim_stub 573, csrscl_
rsim_stub 574, csscal_
rsim_stub 575, cstedc_
rsim_stub 576, cstegr_
rsim_stub 577, cstein_
rsim_stub 578, cstemr_
rsim_stub 579, csteqr_
rsim_stub 580, cswap_
rsim_stub 581, csycon_
rsim_stub 582, csycon_3_
rsim_stub 583, csycon_rook_
rsim_stub 584, csyconv_
rsim_stub 585, csyconvf_
rsim_stub 586, csyconvf_rook_
rsim_stub 587, csyequb_
rsim_stub 588, csymm_
rsim_stub 589, csymv_
rsim_stub 590, csyr2_
rsim_stub 591, csyr2k_
rsim_stub 592, csyr_
rsim_stub 593, csyrfs_
rsim_stub 594, csyrk_
rsim_stub 595, csysv_
rsim_stub 596, csysv_aa_
rsim_stub 597, csysv_aa_2stage_
rsim_stub 598, csysv_rk_
rsim_stub 599, csysv_rook_
rsim_stub 600, csysvx_
rsim_stub 601, csyswapr_
rsim_stub 602, csytf2_
rsim_stub 603, csytf2_rk_
rsim_stub 604, csytf2_rook_
rsim_stub 605, csytrf_
rsim_stub 606, csytrf_aa_
rsim_stub 607, csytrf_aa_2stage_
rsim_stub 608, csytrf_rk_
rsim_stub 609, csytrf_rook_
rsim_stub 610, csytri2_
rsim_stub 611, csytri2x_
rsim_stub 612, csytri_
rsim_stub 613, csytri_3_
rsim_stub 614, csytri_3x_
rsim_stub 615, csytri_rook_
rsim_stub 616, csytrs2_
rsim_stub 617, csytrs_
rsim_stub 618, csytrs_3_
rsim_stub 619, csytrs_aa_
rsim_stub 620, csytrs_aa_2stage_
rsim_stub 621, csytrs_rook_
rsim_stub 622, ctbcon_
rsim_stub 623, ctbmv_
rsim_stub 624, ctbrfs_
rsim_stub 625, ctbsv_
rsim_stub 626, ctbtrs_
rsim_stub 627, ctfsm_
rsim_stub 628, ctftri_
rsim_stub 629, ctfttp_
rsim_stub 630, ctfttr_
rsim_stub 631, ctgevc_
rsim_stub 632, ctgex2_
rsim_stub 633, ctgexc_
rsim_stub 634, ctgsen_
rsim_stub 635, ctgsja_
rsim_stub 636, ctgsna_
rsim_stub 637, ctgsy2_
rsim_stub 638, ctgsyl_
rsim_stub 639, ctpcon_
rsim_stub 640, ctplqt2_
rsim_stub 641, ctplqt_
rsim_stub 642, ctpmlqt_
rsim_stub 643, ctpmqrt_
rsim_stub 644, ctpmv_
rsim_stub 645, ctpqrt2_
rsim_stub 646, ctpqrt_
rsim_stub 647, ctprfb_
rsim_stub 648, ctprfs_
rsim_stub 649, ctpsv_
rsim_stub 650, ctptri_
rsim_stub 651, ctptrs_
rsim_stub 652, ctpttf_
rsim_stub 653, ctpttr_
rsim_stub 654, ctrcon_
rsim_stub 655, ctrevc3_
rsim_stub 656, ctrevc_
rsim_stub 657, ctrexc_
rsim_stub 658, ctrmm_
rsim_stub 659, ctrmv_
rsim_stub 660, ctrrfs_
rsim_stub 661, ctrsen_
rsim_stub 662, ctrsm_
rsim_stub 663, ctrsna_
rsim_stub 664, ctrsv_
rsim_stub 665, ctrsyl3_
rsim_stub 666, ctrsyl_
rsim_stub 667, ctrti2_
rsim_stub 668, ctrtri_
rsim_stub 669, ctrtrs_
rsim_stub 670, ctrttf_
rsim_stub 671, ctrttp_
rsim_stub 672, ctzrqf_
rsim_stub 673, ctzrzf_
rsim_stub 674, cunbdb1_
rsim_stub 675, cunbdb2_
rsim_stub 676, cunbdb3_
rsim_stub 677, cunbdb4_
rsim_stub 678, cunbdb5_
rsim_stub 679, cunbdb6_
rsim_stub 680, cunbdb_
rsim_stub 681, cuncsd2by1_
rsim_stub 682, cuncsd_
rsim_stub 683, cung2l_
rsim_stub 684, cung2r_
rsim_stub 685, cungbr_
rsim_stub 686, cunghr_
rsim_stub 687, cungl2_
rsim_stub 688, cunglq_
rsim_stub 689, cungql_
rsim_stub 690, cungqr_
rsim_stub 691, cungr2_
rsim_stub 692, cungrq_
rsim_stub 693, cungtr_
rsim_stub 694, cungtsqr_
rsim_stub 695, cungtsqr_row_
rsim_stub 696, cunhr_col_
rsim_stub 697, cunm22_
rsim_stub 698, cunm2l_
rsim_stub 699, cunm2r_
rsim_stub 700, cunmbr_
rsim_stub 701, cunmhr_
rsim_stub 702, cunml2_
rsim_stub 703, cunmlq_
rsim_stub 704, cunmql_
rsim_stub 705, cunmqr_
rsim_stub 706, cunmr2_
rsim_stub 707, cunmr3_
rsim_stub 708, cunmrq_
rsim_stub 709, cunmrz_
rsim_stub 710, cunmtr_
rsim_stub 711, cupgtr_
rsim_stub 712, cupmtr_
rsim_stub 713, damax_
rsim_stub 714, damin_
rsim_stub 715, dasum_
rsim_stub 716, daxpby_
rsim_stub 717, daxpy_
rsim_stub 718, dbbcsd_
rsim_stub 719, dbdsdc_
rsim_stub 720, dbdsqr_
rsim_stub 721, dbdsvdx_
rsim_stub 722, dcabs1_
rsim_stub 723, dcopy_
rsim_stub 724, ddisna_
rsim_stub 725, ddot_
rsim_stub 726, dgbbrd_
rsim_stub 727, dgbcon_
rsim_stub 728, dgbequ_
rsim_stub 729, dgbequb_
rsim_stub 730, dgbmv_
rsim_stub 731, dgbrfs_
rsim_stub 732, dgbsv_
rsim_stub 733, dgbsvx_
rsim_stub 734, dgbtf2_
rsim_stub 735, dgbtrf_
rsim_stub 736, dgbtrs_
rsim_stub 737, dgeadd_
rsim_stub 738, dgebak_
rsim_stub 739, dgebal_
rsim_stub 740, dgebd2_
rsim_stub 741, dgebrd_
rsim_stub 742, dgecon_
rsim_stub 743, dgedmd_
rsim_stub 744, dgedmdq_
rsim_stub 745, dgeequ_
rsim_stub 746, dgeequb_
rsim_stub 747, dgees_
rsim_stub 748, dgeesx_
rsim_stub 749, dgeev_
rsim_stub 750, dgeevx_
rsim_stub 751, dgegs_
rsim_stub 752, dgegv_
rsim_stub 753, dgehd2_
rsim_stub 754, dgehrd_
rsim_stub 755, dgejsv_
rsim_stub 756, dgelq2_
rsim_stub 757, dgelq_
rsim_stub 758, dgelqf_
rsim_stub 759, dgelqs_
rsim_stub 760, dgelqt3_
rsim_stub 761, dgelqt_
rsim_stub 762, dgels_
rsim_stub 763, dgelsd_
rsim_stub 764, dgelss_
rsim_stub 765, dgelst_
rsim_stub 766, dgelsx_
rsim_stub 767, dgelsy_
rsim_stub 768, dgemlq_
rsim_stub 769, dgemlqt_
rsim_stub 770, dgemm_
rsim_stub 771, dgemmt_
rsim_stub 772, dgemqr_
rsim_stub 773, dgemqrt_
rsim_stub 774, dgemv_
rsim_stub 775, dgeql2_
rsim_stub 776, dgeqlf_
rsim_stub 777, dgeqp3_
rsim_stub 778, dgeqp3rk_
rsim_stub 779, dgeqpf_
rsim_stub 780, dgeqr2_
rsim_stub 781, dgeqr2p_
rsim_stub 782, dgeqr_
rsim_stub 783, dgeqrf_
rsim_stub 784, dgeqrfp_
rsim_stub 785, dgeqrs_
rsim_stub 786, dgeqrt2_
rsim_stub 787, dgeqrt3_
rsim_stub 788, dgeqrt_
rsim_stub 789, dger_
rsim_stub 790, dgerfs_
rsim_stub 791, dgerq2_
rsim_stub 792, dgerqf_
rsim_stub 793, dgesc2_
rsim_stub 794, dgesdd_
rsim_stub 795, dgesv_
rsim_stub 796, dgesvd_
rsim_stub 797, dgesvdq_
rsim_stub 798, dgesvdx_
rsim_stub 799, dgesvj_
rsim_stub 800, dgesvx_
rsim_stub 801, dgetc2_
rsim_stub 802, dgetf2_
rsim_stub 803, dgetrf2_
rsim_stub 804, dgetrf_
rsim_stub 805, dgetri_
rsim_stub 806, dgetrs_
rsim_stub 807, dgetsls_
rsim_stub 808, dgetsqrhrt_
rsim_stub 809, dggbak_
rsim_stub 810, dggbal_
rsim_stub 811, dgges3_
rsim_stub 812, dgges_
rsim_stub 813, dggesx_
rsim_stub 814, dggev3_
rsim_stub 815, dggev_
rsim_stub 816, dggevx_
rsim_stub 817, dggglm_
rsim_stub 818, dgghd3_
rsim_stub 819, dgghrd_
rsim_stub 820, dgglse_
rsim_stub 821, dggqrf_
rsim_stub 822, dggrqf_
rsim_stub 823, dggsvd3_
rsim_stub 824, dggsvd_
rsim_stub 825, dggsvp3_
rsim_stub 826, dggsvp_
rsim_stub 827, dgsvj0_
rsim_stub 828, dgsvj1_
rsim_stub 829, dgtcon_
rsim_stub 830, dgtrfs_
rsim_stub 831, dgtsv_
rsim_stub 832, dgtsvx_
rsim_stub 833, dgttrf_
rsim_stub 834, dgttrs_
rsim_stub 835, dgtts2_
rsim_stub 836, dhgeqz_
rsim_stub 837, dhsein_
rsim_stub 838, dhseqr_
rsim_stub 839, dimatcopy_
rsim_stub 840, disnan_
rsim_stub 841, dlabad_
rsim_stub 842, dlabrd_
rsim_stub 843, dlacn2_
rsim_stub 844, dlacon_
rsim_stub 845, dlacpy_
rsim_stub 846, dladiv1_
rsim_stub 847, dladiv2_
rsim_stub 848, dladiv_
rsim_stub 849, dlae2_
rsim_stub 850, dlaebz_
rsim_stub 851, dlaed0_
rsim_stub 852, dlaed1_
rsim_stub 853, dlaed2_
rsim_stub 854, dlaed3_
rsim_stub 855, dlaed4_
rsim_stub 856, dlaed5_
rsim_stub 857, dlaed6_
rsim_stub 858, dlaed7_
rsim_stub 859, dlaed8_
rsim_stub 860, dlaed9_
rsim_stub 861, dlaeda_
rsim_stub 862, dlaein_
rsim_stub 863, dlaev2_
rsim_stub 864, dlaexc_
rsim_stub 865, dlag2_
rsim_stub 866, dlag2s_
rsim_stub 867, dlags2_
rsim_stub 868, dlagtf_
rsim_stub 869, dlagtm_
rsim_stub 870, dlagts_
rsim_stub 871, dlagv2_
rsim_stub 872, dlahqr_
rsim_stub 873, dlahr2_
rsim_stub 874, dlahrd_
rsim_stub 875, dlaic1_
rsim_stub 876, dlaisnan_
rsim_stub 877, dlaln2_
rsim_stub 878, dlals0_
rsim_stub 879, dlalsa_
rsim_stub 880, dlalsd_
rsim_stub 881, dlamc3_
rsim_stub 882, dlamch_
rsim_stub 883, dlamrg_
rsim_stub 884, dlamswlq_
rsim_stub 885, dlamtsqr_
rsim_stub 886, dlaneg_
rsim_stub 887, dlangb_
rsim_stub 888, dlange_
rsim_stub 889, dlangt_
rsim_stub 890, dlanhs_
rsim_stub 891, dlansb_
rsim_stub 892, dlansf_
rsim_stub 893, dlansp_
rsim_stub 894, dlanst_
rsim_stub 895, dlansy_
rsim_stub 896, dlantb_
rsim_stub 897, dlantp_
rsim_stub 898, dlantr_
rsim_stub 899, dlanv2_
rsim_stub 900, dlaorhr_col_getrfnp2_
rsim_stub 901, dlaorhr_col_getrfnp_
rsim_stub 902, dlapll_
rsim_stub 903, dlapmr_
rsim_stub 904, dlapmt_
rsim_stub 905, dlapy2_
rsim_stub 906, dlapy3_
rsim_stub 907, dlaqgb_
rsim_stub 908, dlaqge_
rsim_stub 909, dlaqp2_
rsim_stub 910, dlaqp2rk_
rsim_stub 911, dlaqp3rk_
rsim_stub 912, dlaqps_
rsim_stub 913, dlaqr0_
rsim_stub 914, dlaqr1_
rsim_stub 915, dlaqr2_
rsim_stub 916, dlaqr3_
rsim_stub 917, dlaqr4_
rsim_stub 918, dlaqr5_
rsim_stub 919, dlaqsb_
rsim_stub 920, dlaqsp_
rsim_stub 921, dlaqsy_
rsim_stub 922, dlaqtr_
rsim_stub 923, dlaqz0_
rsim_stub 924, dlaqz1_
rsim_stub 925, dlaqz2_
rsim_stub 926, dlaqz3_
rsim_stub 927, dlaqz4_
rsim_stub 928, dlar1v_
rsim_stub 929, dlar2v_
rsim_stub 930, dlarf_
rsim_stub 931, dlarfb_
rsim_stub 932, dlarfb_gett_
rsim_stub 933, dlarfg_
rsim_stub 934, dlarfgp_
rsim_stub 935, dlarft_
rsim_stub 936, dlarfx_
rsim_stub 937, dlarfy_
rsim_stub 938, dlargv_
rsim_stub 939, dlarmm_
rsim_stub 940, dlarnv_
rsim_stub 941, dlarra_
rsim_stub 942, dlarrb_
rsim_stub 943, dlarrc_
rsim_stub 944, dlarrd_
rsim_stub 945, dlarre_
rsim_stub 946, dlarrf_
rsim_stub 947, dlarrj_
rsim_stub 948, dlarrk_
rsim_stub 949, dlarrr_
rsim_stub 950, dlarrv_
rsim_stub 951, dlartg_
rsim_stub 952, dlartgp_
rsim_stub 953, dlartgs_
rsim_stub 954, dlartv_
rsim_stub 955, dlaruv_
rsim_stub 956, dlarz_
rsim_stub 957, dlarzb_
rsim_stub 958, dlarzt_
rsim_stub 959, dlas2_
rsim_stub 960, dlascl_
rsim_stub 961, dlasd0_
rsim_stub 962, dlasd1_
rsim_stub 963, dlasd2_
rsim_stub 964, dlasd3_
rsim_stub 965, dlasd4_
rsim_stub 966, dlasd5_
rsim_stub 967, dlasd6_
rsim_stub 968, dlasd7_
rsim_stub 969, dlasd8_
rsim_stub 970, dlasda_
rsim_stub 971, dlasdq_
rsim_stub 972, dlasdt_
rsim_stub 973, dlaset_
rsim_stub 974, dlasq1_
rsim_stub 975, dlasq2_
rsim_stub 976, dlasq3_
rsim_stub 977, dlasq4_
rsim_stub 978, dlasq5_
rsim_stub 979, dlasq6_
rsim_stub 980, dlasr_
rsim_stub 981, dlasrt_
rsim_stub 982, dlassq_
rsim_stub 983, dlasv2_
rsim_stub 984, dlaswlq_
rsim_stub 985, dlaswp_
rsim_stub 986, dlasy2_
rsim_stub 987, dlasyf_
rsim_stub 988, dlasyf_aa_
rsim_stub 989, dlasyf_rk_
rsim_stub 990, dlasyf_rook_
rsim_stub 991, dlat2s_
rsim_stub 992, dlatbs_
rsim_stub 993, dlatdf_
rsim_stub 994, dlatps_
rsim_stub 995, dlatrd_
rsim_stub 996, dlatrs3_
rsim_stub 997, dlatrs_
rsim_stub 998, dlatrz_
rsim_stub 999, dlatsqr_
rsim_stub 1000, dlatzm_
rsim_stub 1001, dlauu2_
rsim_stub 1002, dlauum_
rsim_stub 1003, dmax_
rsim_stub 1004, dmin_
rsim_stub 1005, dnrm2_
rsim_stub 1006, domatcopy_
rsim_stub 1007, dopgtr_
rsim_stub 1008, dopmtr_
rsim_stub 1009, dorbdb1_
rsim_stub 1010, dorbdb2_
rsim_stub 1011, dorbdb3_
rsim_stub 1012, dorbdb4_
rsim_stub 1013, dorbdb5_
rsim_stub 1014, dorbdb6_
rsim_stub 1015, dorbdb_
rsim_stub 1016, dorcsd2by1_
rsim_stub 1017, dorcsd_
rsim_stub 1018, dorg2l_
rsim_stub 1019, dorg2r_
rsim_stub 1020, dorgbr_
rsim_stub 1021, dorghr_
rsim_stub 1022, dorgl2_
rsim_stub 1023, dorglq_
rsim_stub 1024, dorgql_
rsim_stub 1025, dorgqr_
rsim_stub 1026, dorgr2_
rsim_stub 1027, dorgrq_
rsim_stub 1028, dorgtr_
rsim_stub 1029, dorgtsqr_
rsim_stub 1030, dorgtsqr_row_
rsim_stub 1031, dorhr_col_
rsim_stub 1032, dorm22_
rsim_stub 1033, dorm2l_
rsim_stub 1034, dorm2r_
rsim_stub 1035, dormbr_
rsim_stub 1036, dormhr_
rsim_stub 1037, dorml2_
rsim_stub 1038, dormlq_
rsim_stub 1039, dormql_
rsim_stub 1040, dormqr_
rsim_stub 1041, dormr2_
rsim_stub 1042, dormr3_
rsim_stub 1043, dormrq_
rsim_stub 1044, dormrz_
rsim_stub 1045, dormtr_
rsim_stub 1046, dpbcon_
rsim_stub 1047, dpbequ_
rsim_stub 1048, dpbrfs_
rsim_stub 1049, dpbstf_
rsim_stub 1050, dpbsv_
rsim_stub 1051, dpbsvx_
rsim_stub 1052, dpbtf2_
rsim_stub 1053, dpbtrf_
rsim_stub 1054, dpbtrs_
rsim_stub 1055, dpftrf_
rsim_stub 1056, dpftri_
rsim_stub 1057, dpftrs_
rsim_stub 1058, dpocon_
rsim_stub 1059, dpoequ_
rsim_stub 1060, dpoequb_
rsim_stub 1061, dporfs_
rsim_stub 1062, dposv_
rsim_stub 1063, dposvx_
rsim_stub 1064, dpotf2_
rsim_stub 1065, dpotrf2_
rsim_stub 1066, dpotrf_
rsim_stub 1067, dpotri_
rsim_stub 1068, dpotrs_
rsim_stub 1069, dppcon_
rsim_stub 1070, dppequ_
rsim_stub 1071, dpprfs_
rsim_stub 1072, dppsv_
rsim_stub 1073, dppsvx_
rsim_stub 1074, dpptrf_
rsim_stub 1075, dpptri_
rsim_stub 1076, dpptrs_
rsim_stub 1077, dpstf2_
rsim_stub 1078, dpstrf_
rsim_stub 1079, dptcon_
rsim_stub 1080, dpteqr_
rsim_stub 1081, dptrfs_
rsim_stub 1082, dptsv_
rsim_stub 1083, dptsvx_
rsim_stub 1084, dpttrf_
rsim_stub 1085, dpttrs_
rsim_stub 1086, dptts2_
rsim_stub 1087, drot_
rsim_stub 1088, drotg_
rsim_stub 1089, drotm_
rsim_stub 1090, drotmg_
rsim_stub 1091, droundup_lwork_
rsim_stub 1092, drscl_
rsim_stub 1093, dsb2st_kernels_
rsim_stub 1094, dsbev_
rsim_stub 1095, dsbev_2stage_
rsim_stub 1096, dsbevd_
rsim_stub 1097, dsbevd_2stage_
rsim_stub 1098, dsbevx_
rsim_stub 1099, dsbevx_2stage_
rsim_stub 1100, dsbgst_
rsim_stub 1101, dsbgv_
rsim_stub 1102, dsbgvd_
rsim_stub 1103, dsbgvx_
rsim_stub 1104, dsbmv_
rsim_stub 1105, dsbtrd_
rsim_stub 1106, dscal_
rsim_stub 1107, dsdot_
rsim_stub 1108, dsecnd_
rsim_stub 1109, dsfrk_
rsim_stub 1110, dsgesv_
rsim_stub 1111, dspcon_
rsim_stub 1112, dspev_
rsim_stub 1113, dspevd_
rsim_stub 1114, dspevx_
rsim_stub 1115, dspgst_
rsim_stub 1116, dspgv_
rsim_stub 1117, dspgvd_
rsim_stub 1118, dspgvx_
rsim_stub 1119, dspmv_
rsim_stub 1120, dsposv_
rsim_stub 1121, dspr2_
rsim_stub 1122, dspr_
rsim_stub 1123, dsprfs_
rsim_stub 1124, dspsv_
rsim_stub 1125, dspsvx_
rsim_stub 1126, dsptrd_
rsim_stub 1127, dsptrf_
rsim_stub 1128, dsptri_
rsim_stub 1129, dsptrs_
rsim_stub 1130, dstebz_
rsim_stub 1131, dstedc_
rsim_stub 1132, dstegr_
rsim_stub 1133, dstein_
rsim_stub 1134, dstemr_
rsim_stub 1135, dsteqr_
rsim_stub 1136, dsterf_
rsim_stub 1137, dstev_
rsim_stub 1138, dstevd_
rsim_stub 1139, dstevr_
rsim_stub 1140, dstevx_
rsim_stub 1141, dsum_
rsim_stub 1142, dswap_
rsim_stub 1143, dsycon_
rsim_stub 1144, dsycon_3_
rsim_stub 1145, dsycon_rook_
rsim_stub 1146, dsyconv_
rsim_stub 1147, dsyconvf_
rsim_stub 1148, dsyconvf_rook_
rsim_stub 1149, dsyequb_
rsim_stub 1150, dsyev_
rsim_stub 1151, dsyev_2stage_
rsim_stub 1152, dsyevd_
rsim_stub 1153, dsyevd_2stage_
rsim_stub 1154, dsyevr_
rsim_stub 1155, dsyevr_2stage_
rsim_stub 1156, dsyevx_
rsim_stub 1157, dsyevx_2stage_
rsim_stub 1158, dsygs2_
rsim_stub 1159, dsygst_
rsim_stub 1160, dsygv_
rsim_stub 1161, dsygv_2stage_
rsim_stub 1162, dsygvd_
rsim_stub 1163, dsygvx_
rsim_stub 1164, dsymm_
rsim_stub 1165, dsymv_
rsim_stub 1166, dsyr2_
rsim_stub 1167, dsyr2k_
rsim_stub 1168, dsyr_
rsim_stub 1169, dsyrfs_
rsim_stub 1170, dsyrk_
rsim_stub 1171, dsysv_
rsim_stub 1172, dsysv_aa_
rsim_stub 1173, dsysv_aa_2stage_
rsim_stub 1174, dsysv_rk_
rsim_stub 1175, dsysv_rook_
rsim_stub 1176, dsysvx_
rsim_stub 1177, dsyswapr_
rsim_stub 1178, dsytd2_
rsim_stub 1179, dsytf2_
rsim_stub 1180, dsytf2_rk_
rsim_stub 1181, dsytf2_rook_
rsim_stub 1182, dsytrd_
rsim_stub 1183, dsytrd_2stage_
rsim_stub 1184, dsytrd_sb2st_
rsim_stub 1185, dsytrd_sy2sb_
rsim_stub 1186, dsytrf_
rsim_stub 1187, dsytrf_aa_
rsim_stub 1188, dsytrf_aa_2stage_
rsim_stub 1189, dsytrf_rk_
rsim_stub 1190, dsytrf_rook_
rsim_stub 1191, dsytri2_
rsim_stub 1192, dsytri2x_
rsim_stub 1193, dsytri_
rsim_stub 1194, dsytri_3_
rsim_stub 1195, dsytri_3x_
rsim_stub 1196, dsytri_rook_
rsim_stub 1197, dsytrs2_
rsim_stub 1198, dsytrs_
rsim_stub 1199, dsytrs_3_
rsim_stub 1200, dsytrs_aa_
rsim_stub 1201, dsytrs_aa_2stage_
rsim_stub 1202, dsytrs_rook_
rsim_stub 1203, dtbcon_
rsim_stub 1204, dtbmv_
rsim_stub 1205, dtbrfs_
rsim_stub 1206, dtbsv_
rsim_stub 1207, dtbtrs_
rsim_stub 1208, dtfsm_
rsim_stub 1209, dtftri_
rsim_stub 1210, dtfttp_
rsim_stub 1211, dtfttr_
rsim_stub 1212, dtgevc_
rsim_stub 1213, dtgex2_
rsim_stub 1214, dtgexc_
rsim_stub 1215, dtgsen_
rsim_stub 1216, dtgsja_
rsim_stub 1217, dtgsna_
rsim_stub 1218, dtgsy2_
rsim_stub 1219, dtgsyl_
rsim_stub 1220, dtpcon_
rsim_stub 1221, dtplqt2_
rsim_stub 1222, dtplqt_
rsim_stub 1223, dtpmlqt_
rsim_stub 1224, dtpmqrt_
rsim_stub 1225, dtpmv_
rsim_stub 1226, dtpqrt2_
rsim_stub 1227, dtpqrt_
rsim_stub 1228, dtprfb_
rsim_stub 1229, dtprfs_
rsim_stub 1230, dtpsv_
rsim_stub 1231, dtptri_
rsim_stub 1232, dtptrs_
rsim_stub 1233, dtpttf_
rsim_stub 1234, dtpttr_
rsim_stub 1235, dtrcon_
rsim_stub 1236, dtrevc3_
rsim_stub 1237, dtrevc_
rsim_stub 1238, dtrexc_
rsim_stub 1239, dtrmm_
rsim_stub 1240, dtrmv_
rsim_stub 1241, dtrrfs_
rsim_stub 1242, dtrsen_
rsim_stub 1243, dtrsm_
rsim_stub 1244, dtrsna_
rsim_stub 1245, dtrsv_
rsim_stub 1246, dtrsyl3_
rsim_stub 1247, dtrsyl_
rsim_stub 1248, dtrti2_
rsim_stub 1249, dtrtri_
rsim_stub 1250, dtrtrs_
rsim_stub 1251, dtrttf_
rsim_stub 1252, dtrttp_
rsim_stub 1253, dtzrqf_
rsim_stub 1254, dtzrzf_
rsim_stub 1255, dzamax_
rsim_stub 1256, dzamin_
rsim_stub 1257, dzasum_
rsim_stub 1258, dznrm2_
rsim_stub 1259, dzsum1_
rsim_stub 1260, dzsum_
rsim_stub 1261, icamax_
rsim_stub 1262, icamin_
rsim_stub 1263, icmax1_
rsim_stub 1264, idamax_
rsim_stub 1265, idamin_
rsim_stub 1266, idmax_
rsim_stub 1267, idmin_
rsim_stub 1268, ieeeck_
rsim_stub 1269, ilaclc_
rsim_stub 1270, ilaclr_
rsim_stub 1271, iladiag_
rsim_stub 1272, iladlc_
rsim_stub 1273, iladlr_
rsim_stub 1274, ilaenv2stage_
rsim_stub 1275, ilaenv_
rsim_stub 1276, ilaprec_
rsim_stub 1277, ilaslc_
rsim_stub 1278, ilaslr_
rsim_stub 1279, ilatrans_
rsim_stub 1280, ilauplo_
rsim_stub 1281, ilaver_
rsim_stub 1282, ilazlc_
rsim_stub 1283, ilazlr_
rsim_stub 1284, iparam2stage_
rsim_stub 1285, iparmq_
rsim_stub 1286, isamax_
rsim_stub 1287, isamin_
rsim_stub 1288, ismax_
rsim_stub 1289, ismin_
rsim_stub 1290, izamax_
rsim_stub 1291, izamin_
rsim_stub 1292, izmax1_
rsim_stub 1293, lsame_
rsim_stub 1294, lsamen_
rsim_stub 1295, samax_
rsim_stub 1296, samin_
rsim_stub 1297, sasum_
rsim_stub 1298, saxpby_
rsim_stub 1299, saxpy_
rsim_stub 1300, sbbcsd_
rsim_stub 1301, sbdsdc_
rsim_stub 1302, sbdsqr_
rsim_stub 1303, sbdsvdx_
rsim_stub 1304, scabs1_
rsim_stub 1305, scamax_
rsim_stub 1306, scamin_
rsim_stub 1307, scasum_
rsim_stub 1308, scnrm2_
rsim_stub 1309, scopy_
rsim_stub 1310, scsum1_
rsim_stub 1311, scsum_
rsim_stub 1312, sdisna_
rsim_stub 1313, sdot_
rsim_stub 1314, sdsdot_
rsim_stub 1315, second_
rsim_stub 1316, sgbbrd_
rsim_stub 1317, sgbcon_
rsim_stub 1318, sgbequ_
rsim_stub 1319, sgbequb_
rsim_stub 1320, sgbmv_
rsim_stub 1321, sgbrfs_
rsim_stub 1322, sgbsv_
rsim_stub 1323, sgbsvx_
rsim_stub 1324, sgbtf2_
rsim_stub 1325, sgbtrf_
rsim_stub 1326, sgbtrs_
rsim_stub 1327, sgeadd_
rsim_stub 1328, sgebak_
rsim_stub 1329, sgebal_
rsim_stub 1330, sgebd2_
rsim_stub 1331, sgebrd_
rsim_stub 1332, sgecon_
rsim_stub 1333, sgedmd_
rsim_stub 1334, sgedmdq_
rsim_stub 1335, sgeequ_
rsim_stub 1336, sgeequb_
rsim_stub 1337, sgees_
rsim_stub 1338, sgeesx_
rsim_stub 1339, sgeev_
rsim_stub 1340, sgeevx_
rsim_stub 1341, sgegs_
rsim_stub 1342, sgegv_
rsim_stub 1343, sgehd2_
rsim_stub 1344, sgehrd_
rsim_stub 1345, sgejsv_
rsim_stub 1346, sgelq2_
rsim_stub 1347, sgelq_
rsim_stub 1348, sgelqf_
rsim_stub 1349, sgelqs_
rsim_stub 1350, sgelqt3_
rsim_stub 1351, sgelqt_
rsim_stub 1352, sgels_
rsim_stub 1353, sgelsd_
rsim_stub 1354, sgelss_
rsim_stub 1355, sgelst_
rsim_stub 1356, sgelsx_
rsim_stub 1357, sgelsy_
rsim_stub 1358, sgemlq_
rsim_stub 1359, sgemlqt_
rsim_stub 1360, sgemm_
rsim_stub 1361, sgemmt_
rsim_stub 1362, sgemqr_
rsim_stub 1363, sgemqrt_
rsim_stub 1364, sgemv_
rsim_stub 1365, sgeql2_
rsim_stub 1366, sgeqlf_
rsim_stub 1367, sgeqp3_
rsim_stub 1368, sgeqp3rk_
rsim_stub 1369, sgeqpf_
rsim_stub 1370, sgeqr2_
rsim_stub 1371, sgeqr2p_
rsim_stub 1372, sgeqr_
rsim_stub 1373, sgeqrf_
rsim_stub 1374, sgeqrfp_
rsim_stub 1375, sgeqrs_
rsim_stub 1376, sgeqrt2_
rsim_stub 1377, sgeqrt3_
rsim_stub 1378, sgeqrt_
rsim_stub 1379, sger_
rsim_stub 1380, sgerfs_
rsim_stub 1381, sgerq2_
rsim_stub 1382, sgerqf_
rsim_stub 1383, sgesc2_
rsim_stub 1384, sgesdd_
rsim_stub 1385, sgesv_
rsim_stub 1386, sgesvd_
rsim_stub 1387, sgesvdq_
rsim_stub 1388, sgesvdx_
rsim_stub 1389, sgesvj_
rsim_stub 1390, sgesvx_
rsim_stub 1391, sgetc2_
rsim_stub 1392, sgetf2_
rsim_stub 1393, sgetrf2_
rsim_stub 1394, sgetrf_
rsim_stub 1395, sgetri_
rsim_stub 1396, sgetrs_
rsim_stub 1397, sgetsls_
rsim_stub 1398, sgetsqrhrt_
rsim_stub 1399, sggbak_
rsim_stub 1400, sggbal_
rsim_stub 1401, sgges3_
rsim_stub 1402, sgges_
rsim_stub 1403, sggesx_
rsim_stub 1404, sggev3_
rsim_stub 1405, sggev_
rsim_stub 1406, sggevx_
rsim_stub 1407, sggglm_
rsim_stub 1408, sgghd3_
rsim_stub 1409, sgghrd_
rsim_stub 1410, sgglse_
rsim_stub 1411, sggqrf_
rsim_stub 1412, sggrqf_
rsim_stub 1413, sggsvd3_
rsim_stub 1414, sggsvd_
rsim_stub 1415, sggsvp3_
rsim_stub 1416, sggsvp_
rsim_stub 1417, sgsvj0_
rsim_stub 1418, sgsvj1_
rsim_stub 1419, sgtcon_
rsim_stub 1420, sgtrfs_
rsim_stub 1421, sgtsv_
rsim_stub 1422, sgtsvx_
rsim_stub 1423, sgttrf_
rsim_stub 1424, sgttrs_
rsim_stub 1425, sgtts2_
rsim_stub 1426, shgeqz_
rsim_stub 1427, shsein_
rsim_stub 1428, shseqr_
rsim_stub 1429, simatcopy_
rsim_stub 1430, sisnan_
rsim_stub 1431, slabad_
rsim_stub 1432, slabrd_
rsim_stub 1433, slacn2_
rsim_stub 1434, slacon_
rsim_stub 1435, slacpy_
rsim_stub 1436, sladiv1_
rsim_stub 1437, sladiv2_
rsim_stub 1438, sladiv_
rsim_stub 1439, slae2_
rsim_stub 1440, slaebz_
rsim_stub 1441, slaed0_
rsim_stub 1442, slaed1_
rsim_stub 1443, slaed2_
rsim_stub 1444, slaed3_
rsim_stub 1445, slaed4_
rsim_stub 1446, slaed5_
rsim_stub 1447, slaed6_
rsim_stub 1448, slaed7_
rsim_stub 1449, slaed8_
rsim_stub 1450, slaed9_
rsim_stub 1451, slaeda_
rsim_stub 1452, slaein_
rsim_stub 1453, slaev2_
rsim_stub 1454, slaexc_
rsim_stub 1455, slag2_
rsim_stub 1456, slag2d_
rsim_stub 1457, slags2_
rsim_stub 1458, slagtf_
rsim_stub 1459, slagtm_
rsim_stub 1460, slagts_
rsim_stub 1461, slagv2_
rsim_stub 1462, slahqr_
rsim_stub 1463, slahr2_
rsim_stub 1464, slahrd_
rsim_stub 1465, slaic1_
rsim_stub 1466, slaisnan_
rsim_stub 1467, slaln2_
rsim_stub 1468, slals0_
rsim_stub 1469, slalsa_
rsim_stub 1470, slalsd_
rsim_stub 1471, slamc3_
rsim_stub 1472, slamch_
rsim_stub 1473, slamrg_
rsim_stub 1474, slamswlq_
rsim_stub 1475, slamtsqr_
rsim_stub 1476, slaneg_
rsim_stub 1477, slangb_
rsim_stub 1478, slange_
rsim_stub 1479, slangt_
rsim_stub 1480, slanhs_
rsim_stub 1481, slansb_
rsim_stub 1482, slansf_
rsim_stub 1483, slansp_
rsim_stub 1484, slanst_
rsim_stub 1485, slansy_
rsim_stub 1486, slantb_
rsim_stub 1487, slantp_
rsim_stub 1488, slantr_
rsim_stub 1489, slanv2_
rsim_stub 1490, slaorhr_col_getrfnp2_
rsim_stub 1491, slaorhr_col_getrfnp_
rsim_stub 1492, slapll_
rsim_stub 1493, slapmr_
rsim_stub 1494, slapmt_
rsim_stub 1495, slapy2_
rsim_stub 1496, slapy3_
rsim_stub 1497, slaqgb_
rsim_stub 1498, slaqge_
rsim_stub 1499, slaqp2_
rsim_stub 1500, slaqp2rk_
rsim_stub 1501, slaqp3rk_
rsim_stub 1502, slaqps_
rsim_stub 1503, slaqr0_
rsim_stub 1504, slaqr1_
rsim_stub 1505, slaqr2_
rsim_stub 1506, slaqr3_
rsim_stub 1507, slaqr4_
rsim_stub 1508, slaqr5_
rsim_stub 1509, slaqsb_
rsim_stub 1510, slaqsp_
rsim_stub 1511, slaqsy_
rsim_stub 1512, slaqtr_
rsim_stub 1513, slaqz0_
rsim_stub 1514, slaqz1_
rsim_stub 1515, slaqz2_
rsim_stub 1516, slaqz3_
rsim_stub 1517, slaqz4_
rsim_stub 1518, slar1v_
rsim_stub 1519, slar2v_
rsim_stub 1520, slarf_
rsim_stub 1521, slarfb_
rsim_stub 1522, slarfb_gett_
rsim_stub 1523, slarfg_
rsim_stub 1524, slarfgp_
rsim_stub 1525, slarft_
rsim_stub 1526, slarfx_
rsim_stub 1527, slarfy_
rsim_stub 1528, slargv_
rsim_stub 1529, slarmm_
rsim_stub 1530, slarnv_
rsim_stub 1531, slarra_
rsim_stub 1532, slarrb_
rsim_stub 1533, slarrc_
rsim_stub 1534, slarrd_
rsim_stub 1535, slarre_
rsim_stub 1536, slarrf_
rsim_stub 1537, slarrj_
rsim_stub 1538, slarrk_
rsim_stub 1539, slarrr_
rsim_stub 1540, slarrv_
rsim_stub 1541, slartg_
rsim_stub 1542, slartgp_
rsim_stub 1543, slartgs_
rsim_stub 1544, slartv_
rsim_stub 1545, slaruv_
rsim_stub 1546, slarz_
rsim_stub 1547, slarzb_
rsim_stub 1548, slarzt_
rsim_stub 1549, slas2_
rsim_stub 1550, slascl_
rsim_stub 1551, slasd0_
rsim_stub 1552, slasd1_
rsim_stub 1553, slasd2_
rsim_stub 1554, slasd3_
rsim_stub 1555, slasd4_
rsim_stub 1556, slasd5_
rsim_stub 1557, slasd6_
rsim_stub 1558, slasd7_
rsim_stub 1559, slasd8_
rsim_stub 1560, slasda_
rsim_stub 1561, slasdq_
rsim_stub 1562, slasdt_
rsim_stub 1563, slaset_
rsim_stub 1564, slasq1_
rsim_stub 1565, slasq2_
rsim_stub 1566, slasq3_
rsim_stub 1567, slasq4_
rsim_stub 1568, slasq5_
rsim_stub 1569, slasq6_
rsim_stub 1570, slasr_
rsim_stub 1571, slasrt_
rsim_stub 1572, slassq_
rsim_stub 1573, slasv2_
rsim_stub 1574, slaswlq_
rsim_stub 1575, slaswp_
rsim_stub 1576, slasy2_
rsim_stub 1577, slasyf_
rsim_stub 1578, slasyf_aa_
rsim_stub 1579, slasyf_rk_
rsim_stub 1580, slasyf_rook_
rsim_stub 1581, slatbs_
rsim_stub 1582, slatdf_
rsim_stub 1583, slatps_
rsim_stub 1584, slatrd_
rsim_stub 1585, slatrs3_
rsim_stub 1586, slatrs_
rsim_stub 1587, slatrz_
rsim_stub 1588, slatsqr_
rsim_stub 1589, slatzm_
rsim_stub 1590, slauu2_
rsim_stub 1591, slauum_
rsim_stub 1592, smax_
rsim_stub 1593, smin_
rsim_stub 1594, snrm2_
rsim_stub 1595, somatcopy_
rsim_stub 1596, sopgtr_
rsim_stub 1597, sopmtr_
rsim_stub 1598, sorbdb1_
rsim_stub 1599, sorbdb2_
rsim_stub 1600, sorbdb3_
rsim_stub 1601, sorbdb4_
rsim_stub 1602, sorbdb5_
rsim_stub 1603, sorbdb6_
rsim_stub 1604, sorbdb_
rsim_stub 1605, sorcsd2by1_
rsim_stub 1606, sorcsd_
rsim_stub 1607, sorg2l_
rsim_stub 1608, sorg2r_
rsim_stub 1609, sorgbr_
rsim_stub 1610, sorghr_
rsim_stub 1611, sorgl2_
rsim_stub 1612, sorglq_
rsim_stub 1613, sorgql_
rsim_stub 1614, sorgqr_
rsim_stub 1615, sorgr2_
rsim_stub 1616, sorgrq_
rsim_stub 1617, sorgtr_
rsim_stub 1618, sorgtsqr_
rsim_stub 1619, sorgtsqr_row_
rsim_stub 1620, sorhr_col_
rsim_stub 1621, sorm22_
rsim_stub 1622, sorm2l_
rsim_stub 1623, sorm2r_
rsim_stub 1624, sormbr_
rsim_stub 1625, sormhr_
rsim_stub 1626, sorml2_
rsim_stub 1627, sormlq_
rsim_stub 1628, sormql_
rsim_stub 1629, sormqr_
rsim_stub 1630, sormr2_
rsim_stub 1631, sormr3_
rsim_stub 1632, sormrq_
rsim_stub 1633, sormrz_
rsim_stub 1634, sormtr_
rsim_stub 1635, spbcon_
rsim_stub 1636, spbequ_
rsim_stub 1637, spbrfs_
rsim_stub 1638, spbstf_
rsim_stub 1639, spbsv_
rsim_stub 1640, spbsvx_
rsim_stub 1641, spbtf2_
rsim_stub 1642, spbtrf_
rsim_stub 1643, spbtrs_
rsim_stub 1644, spftrf_
rsim_stub 1645, spftri_
rsim_stub 1646, spftrs_
rsim_stub 1647, spocon_
rsim_stub 1648, spoequ_
rsim_stub 1649, spoequb_
rsim_stub 1650, sporfs_
rsim_stub 1651, sposv_
rsim_stub 1652, sposvx_
rsim_stub 1653, spotf2_
rsim_stub 1654, spotrf2_
rsim_stub 1655, spotrf_
rsim_stub 1656, spotri_
rsim_stub 1657, spotrs_
rsim_stub 1658, sppcon_
rsim_stub 1659, sppequ_
rsim_stub 1660, spprfs_
rsim_stub 1661, sppsv_
rsim_stub 1662, sppsvx_
rsim_stub 1663, spptrf_
rsim_stub 1664, spptri_
rsim_stub 1665, spptrs_
rsim_stub 1666, spstf2_
rsim_stub 1667, spstrf_
rsim_stub 1668, sptcon_
rsim_stub 1669, spteqr_
rsim_stub 1670, sptrfs_
rsim_stub 1671, sptsv_
rsim_stub 1672, sptsvx_
rsim_stub 1673, spttrf_
rsim_stub 1674, spttrs_
rsim_stub 1675, sptts2_
rsim_stub 1676, srot_
rsim_stub 1677, srotg_
rsim_stub 1678, srotm_
rsim_stub 1679, srotmg_
rsim_stub 1680, sroundup_lwork_
rsim_stub 1681, srscl_
rsim_stub 1682, ssb2st_kernels_
rsim_stub 1683, ssbev_
rsim_stub 1684, ssbev_2stage_
rsim_stub 1685, ssbevd_
rsim_stub 1686, ssbevd_2stage_
rsim_stub 1687, ssbevx_
rsim_stub 1688, ssbevx_2stage_
rsim_stub 1689, ssbgst_
rsim_stub 1690, ssbgv_
rsim_stub 1691, ssbgvd_
rsim_stub 1692, ssbgvx_
rsim_stub 1693, ssbmv_
rsim_stub 1694, ssbtrd_
rsim_stub 1695, sscal_
rsim_stub 1696, ssfrk_
rsim_stub 1697, sspcon_
rsim_stub 1698, sspev_
rsim_stub 1699, sspevd_
rsim_stub 1700, sspevx_
rsim_stub 1701, sspgst_
rsim_stub 1702, sspgv_
rsim_stub 1703, sspgvd_
rsim_stub 1704, sspgvx_
rsim_stub 1705, sspmv_
rsim_stub 1706, sspr2_
rsim_stub 1707, sspr_
rsim_stub 1708, ssprfs_
rsim_stub 1709, sspsv_
rsim_stub 1710, sspsvx_
rsim_stub 1711, ssptrd_
rsim_stub 1712, ssptrf_
rsim_stub 1713, ssptri_
rsim_stub 1714, ssptrs_
rsim_stub 1715, sstebz_
rsim_stub 1716, sstedc_
rsim_stub 1717, sstegr_
rsim_stub 1718, sstein_
rsim_stub 1719, sstemr_
rsim_stub 1720, ssteqr_
rsim_stub 1721, ssterf_
rsim_stub 1722, sstev_
rsim_stub 1723, sstevd_
rsim_stub 1724, sstevr_
rsim_stub 1725, sstevx_
rsim_stub 1726, ssum_
rsim_stub 1727, sswap_
rsim_stub 1728, ssycon_
rsim_stub 1729, ssycon_3_
rsim_stub 1730, ssycon_rook_
rsim_stub 1731, ssyconv_
rsim_stub 1732, ssyconvf_
rsim_stub 1733, ssyconvf_rook_
rsim_stub 1734, ssyequb_
rsim_stub 1735, ssyev_
rsim_stub 1736, ssyev_2stage_
rsim_stub 1737, ssyevd_
rsim_stub 1738, ssyevd_2stage_
rsim_stub 1739, ssyevr_
rsim_stub 1740, ssyevr_2stage_
rsim_stub 1741, ssyevx_
rsim_stub 1742, ssyevx_2stage_
rsim_stub 1743, ssygs2_
rsim_stub 1744, ssygst_
rsim_stub 1745, ssygv_
rsim_stub 1746, ssygv_2stage_
rsim_stub 1747, ssygvd_
rsim_stub 1748, ssygvx_
rsim_stub 1749, ssymm_
rsim_stub 1750, ssymv_
rsim_stub 1751, ssyr2_
rsim_stub 1752, ssyr2k_
rsim_stub 1753, ssyr_
rsim_stub 1754, ssyrfs_
rsim_stub 1755, ssyrk_
rsim_stub 1756, ssysv_
rsim_stub 1757, ssysv_aa_
rsim_stub 1758, ssysv_aa_2stage_
rsim_stub 1759, ssysv_rk_
rsim_stub 1760, ssysv_rook_
rsim_stub 1761, ssysvx_
rsim_stub 1762, ssyswapr_
rsim_stub 1763, ssytd2_
rsim_stub 1764, ssytf2_
rsim_stub 1765, ssytf2_rk_
rsim_stub 1766, ssytf2_rook_
rsim_stub 1767, ssytrd_
rsim_stub 1768, ssytrd_2stage_
rsim_stub 1769, ssytrd_sb2st_
rsim_stub 1770, ssytrd_sy2sb_
rsim_stub 1771, ssytrf_
rsim_stub 1772, ssytrf_aa_
rsim_stub 1773, ssytrf_aa_2stage_
rsim_stub 1774, ssytrf_rk_
rsim_stub 1775, ssytrf_rook_
rsim_stub 1776, ssytri2_
rsim_stub 1777, ssytri2x_
rsim_stub 1778, ssytri_
rsim_stub 1779, ssytri_3_
rsim_stub 1780, ssytri_3x_
rsim_stub 1781, ssytri_rook_
rsim_stub 1782, ssytrs2_
rsim_stub 1783, ssytrs_
rsim_stub 1784, ssytrs_3_
rsim_stub 1785, ssytrs_aa_
rsim_stub 1786, ssytrs_aa_2stage_
rsim_stub 1787, ssytrs_rook_
rsim_stub 1788, stbcon_
rsim_stub 1789, stbmv_
rsim_stub 1790, stbrfs_
rsim_stub 1791, stbsv_
rsim_stub 1792, stbtrs_
rsim_stub 1793, stfsm_
rsim_stub 1794, stftri_
rsim_stub 1795, stfttp_
rsim_stub 1796, stfttr_
rsim_stub 1797, stgevc_
rsim_stub 1798, stgex2_
rsim_stub 1799, stgexc_
rsim_stub 1800, stgsen_
rsim_stub 1801, stgsja_
rsim_stub 1802, stgsna_
rsim_stub 1803, stgsy2_
rsim_stub 1804, stgsyl_
rsim_stub 1805, stpcon_
rsim_stub 1806, stplqt2_
rsim_stub 1807, stplqt_
rsim_stub 1808, stpmlqt_
rsim_stub 1809, stpmqrt_
rsim_stub 1810, stpmv_
rsim_stub 1811, stpqrt2_
rsim_stub 1812, stpqrt_
rsim_stub 1813, stprfb_
rsim_stub 1814, stprfs_
rsim_stub 1815, stpsv_
rsim_stub 1816, stptri_
rsim_stub 1817, stptrs_
rsim_stub 1818, stpttf_
rsim_stub 1819, stpttr_
rsim_stub 1820, strcon_
rsim_stub 1821, strevc3_
rsim_stub 1822, strevc_
rsim_stub 1823, strexc_
rsim_stub 1824, strmm_
rsim_stub 1825, strmv_
rsim_stub 1826, strrfs_
rsim_stub 1827, strsen_
rsim_stub 1828, strsm_
rsim_stub 1829, strsna_
rsim_stub 1830, strsv_
rsim_stub 1831, strsyl3_
rsim_stub 1832, strsyl_
rsim_stub 1833, strti2_
rsim_stub 1834, strtri_
rsim_stub 1835, strtrs_
rsim_stub 1836, strttf_
rsim_stub 1837, strttp_
rsim_stub 1838, stzrqf_
rsim_stub 1839, stzrzf_
rsim_stub 1840, zaxpby_
rsim_stub 1841, zaxpy_
rsim_stub 1842, zaxpyc_
rsim_stub 1843, zbbcsd_
rsim_stub 1844, zbdsqr_
rsim_stub 1845, zcgesv_
rsim_stub 1846, zcopy_
rsim_stub 1847, zcposv_
rsim_stub 1848, zdotc_
rsim_stub 1849, zdotu_
rsim_stub 1850, zdrot_
rsim_stub 1851, zdrscl_
rsim_stub 1852, zdscal_
rsim_stub 1853, zgbbrd_
rsim_stub 1854, zgbcon_
rsim_stub 1855, zgbequ_
rsim_stub 1856, zgbequb_
rsim_stub 1857, zgbmv_
rsim_stub 1858, zgbrfs_
rsim_stub 1859, zgbsv_
rsim_stub 1860, zgbsvx_
rsim_stub 1861, zgbtf2_
rsim_stub 1862, zgbtrf_
rsim_stub 1863, zgbtrs_
rsim_stub 1864, zgeadd_
rsim_stub 1865, zgebak_
rsim_stub 1866, zgebal_
rsim_stub 1867, zgebd2_
rsim_stub 1868, zgebrd_
rsim_stub 1869, zgecon_
rsim_stub 1870, zgedmd_
rsim_stub 1871, zgedmdq_
rsim_stub 1872, zgeequ_
rsim_stub 1873, zgeequb_
rsim_stub 1874, zgees_
rsim_stub 1875, zgeesx_
rsim_stub 1876, zgeev_
rsim_stub 1877, zgeevx_
rsim_stub 1878, zgegs_
rsim_stub 1879, zgegv_
rsim_stub 1880, zgehd2_
rsim_stub 1881, zgehrd_
rsim_stub 1882, zgejsv_
rsim_stub 1883, zgelq2_
rsim_stub 1884, zgelq_
rsim_stub 1885, zgelqf_
rsim_stub 1886, zgelqs_
rsim_stub 1887, zgelqt3_
rsim_stub 1888, zgelqt_
rsim_stub 1889, zgels_
rsim_stub 1890, zgelsd_
rsim_stub 1891, zgelss_
rsim_stub 1892, zgelst_
rsim_stub 1893, zgelsx_
rsim_stub 1894, zgelsy_
rsim_stub 1895, zgemlq_
rsim_stub 1896, zgemlqt_
rsim_stub 1897, zgemm3m_
rsim_stub 1898, zgemm_
rsim_stub 1899, zgemmt_
rsim_stub 1900, zgemqr_
rsim_stub 1901, zgemqrt_
rsim_stub 1902, zgemv_
rsim_stub 1903, zgeql2_
rsim_stub 1904, zgeqlf_
rsim_stub 1905, zgeqp3_
rsim_stub 1906, zgeqp3rk_
rsim_stub 1907, zgeqpf_
rsim_stub 1908, zgeqr2_
rsim_stub 1909, zgeqr2p_
rsim_stub 1910, zgeqr_
rsim_stub 1911, zgeqrf_
rsim_stub 1912, zgeqrfp_
rsim_stub 1913, zgeqrs_
rsim_stub 1914, zgeqrt2_
rsim_stub 1915, zgeqrt3_
rsim_stub 1916, zgeqrt_
rsim_stub 1917, zgerc_
rsim_stub 1918, zgerfs_
rsim_stub 1919, zgerq2_
rsim_stub 1920, zgerqf_
rsim_stub 1921, zgeru_
rsim_stub 1922, zgesc2_
rsim_stub 1923, zgesdd_
rsim_stub 1924, zgesv_
rsim_stub 1925, zgesvd_
rsim_stub 1926, zgesvdq_
rsim_stub 1927, zgesvdx_
rsim_stub 1928, zgesvj_
rsim_stub 1929, zgesvx_
rsim_stub 1930, zgetc2_
rsim_stub 1931, zgetf2_
rsim_stub 1932, zgetrf2_
rsim_stub 1933, zgetrf_
rsim_stub 1934, zgetri_
rsim_stub 1935, zgetrs_
rsim_stub 1936, zgetsls_
rsim_stub 1937, zgetsqrhrt_
rsim_stub 1938, zggbak_
rsim_stub 1939, zggbal_
rsim_stub 1940, zgges3_
rsim_stub 1941, zgges_
rsim_stub 1942, zggesx_
rsim_stub 1943, zggev3_
rsim_stub 1944, zggev_
rsim_stub 1945, zggevx_
rsim_stub 1946, zggglm_
rsim_stub 1947, zgghd3_
rsim_stub 1948, zgghrd_
rsim_stub 1949, zgglse_
rsim_stub 1950, zggqrf_
rsim_stub 1951, zggrqf_
rsim_stub 1952, zggsvd3_
rsim_stub 1953, zggsvd_
rsim_stub 1954, zggsvp3_
rsim_stub 1955, zggsvp_
rsim_stub 1956, zgsvj0_
rsim_stub 1957, zgsvj1_
rsim_stub 1958, zgtcon_
rsim_stub 1959, zgtrfs_
rsim_stub 1960, zgtsv_
rsim_stub 1961, zgtsvx_
rsim_stub 1962, zgttrf_
rsim_stub 1963, zgttrs_
rsim_stub 1964, zgtts2_
rsim_stub 1965, zhb2st_kernels_
rsim_stub 1966, zhbev_
rsim_stub 1967, zhbev_2stage_
rsim_stub 1968, zhbevd_
rsim_stub 1969, zhbevd_2stage_
rsim_stub 1970, zhbevx_
rsim_stub 1971, zhbevx_2stage_
rsim_stub 1972, zhbgst_
rsim_stub 1973, zhbgv_
rsim_stub 1974, zhbgvd_
rsim_stub 1975, zhbgvx_
rsim_stub 1976, zhbmv_
rsim_stub 1977, zhbtrd_
rsim_stub 1978, zhecon_
rsim_stub 1979, zhecon_3_
rsim_stub 1980, zhecon_rook_
rsim_stub 1981, zheequb_
rsim_stub 1982, zheev_
rsim_stub 1983, zheev_2stage_
rsim_stub 1984, zheevd_
rsim_stub 1985, zheevd_2stage_
rsim_stub 1986, zheevr_
rsim_stub 1987, zheevr_2stage_
rsim_stub 1988, zheevx_
rsim_stub 1989, zheevx_2stage_
rsim_stub 1990, zhegs2_
rsim_stub 1991, zhegst_
rsim_stub 1992, zhegv_
rsim_stub 1993, zhegv_2stage_
rsim_stub 1994, zhegvd_
rsim_stub 1995, zhegvx_
rsim_stub 1996, zhemm_
rsim_stub 1997, zhemv_
rsim_stub 1998, zher2_
rsim_stub 1999, zher2k_
rsim_stub 2000, zher_
rsim_stub 2001, zherfs_
rsim_stub 2002, zherk_
rsim_stub 2003, zhesv_
rsim_stub 2004, zhesv_aa_
rsim_stub 2005, zhesv_aa_2stage_
rsim_stub 2006, zhesv_rk_
rsim_stub 2007, zhesv_rook_
rsim_stub 2008, zhesvx_
rsim_stub 2009, zheswapr_
rsim_stub 2010, zhetd2_
rsim_stub 2011, zhetf2_
rsim_stub 2012, zhetf2_rk_
rsim_stub 2013, zhetf2_rook_
rsim_stub 2014, zhetrd_
rsim_stub 2015, zhetrd_2stage_
rsim_stub 2016, zhetrd_hb2st_
rsim_stub 2017, zhetrd_he2hb_
rsim_stub 2018, zhetrf_
rsim_stub 2019, zhetrf_aa_
rsim_stub 2020, zhetrf_aa_2stage_
rsim_stub 2021, zhetrf_rk_
rsim_stub 2022, zhetrf_rook_
rsim_stub 2023, zhetri2_
rsim_stub 2024, zhetri2x_
rsim_stub 2025, zhetri_
rsim_stub 2026, zhetri_3_
rsim_stub 2027, zhetri_3x_
rsim_stub 2028, zhetri_rook_
rsim_stub 2029, zhetrs2_
rsim_stub 2030, zhetrs_
rsim_stub 2031, zhetrs_3_
rsim_stub 2032, zhetrs_aa_
rsim_stub 2033, zhetrs_aa_2stage_
rsim_stub 2034, zhetrs_rook_
rsim_stub 2035, zhfrk_
rsim_stub 2036, zhgeqz_
rsim_stub 2037, zhpcon_
rsim_stub 2038, zhpev_
rsim_stub 2039, zhpevd_
rsim_stub 2040, zhpevx_
rsim_stub 2041, zhpgst_
rsim_stub 2042, zhpgv_
rsim_stub 2043, zhpgvd_
rsim_stub 2044, zhpgvx_
rsim_stub 2045, zhpmv_
rsim_stub 2046, zhpr2_
rsim_stub 2047, zhpr_
rsim_stub 2048, zhprfs_
rsim_stub 2049, zhpsv_
rsim_stub 2050, zhpsvx_
rsim_stub 2051, zhptrd_
rsim_stub 2052, zhptrf_
rsim_stub 2053, zhptri_
rsim_stub 2054, zhptrs_
rsim_stub 2055, zhsein_
rsim_stub 2056, zhseqr_
rsim_stub 2057, zimatcopy_
rsim_stub 2058, zlabrd_
rsim_stub 2059, zlacgv_
rsim_stub 2060, zlacn2_
rsim_stub 2061, zlacon_
rsim_stub 2062, zlacp2_
rsim_stub 2063, zlacpy_
rsim_stub 2064, zlacrm_
rsim_stub 2065, zlacrt_
rsim_stub 2066, zladiv_
rsim_stub 2067, zlaed0_
rsim_stub 2068, zlaed7_
rsim_stub 2069, zlaed8_
rsim_stub 2070, zlaein_
rsim_stub 2071, zlaesy_
rsim_stub 2072, zlaev2_
rsim_stub 2073, zlag2c_
rsim_stub 2074, zlags2_
rsim_stub 2075, zlagtm_
rsim_stub 2076, zlahef_
rsim_stub 2077, zlahef_aa_
rsim_stub 2078, zlahef_rk_
rsim_stub 2079, zlahef_rook_
rsim_stub 2080, zlahqr_
rsim_stub 2081, zlahr2_
rsim_stub 2082, zlahrd_
rsim_stub 2083, zlaic1_
rsim_stub 2084, zlals0_
rsim_stub 2085, zlalsa_
rsim_stub 2086, zlalsd_
rsim_stub 2087, zlamswlq_
rsim_stub 2088, zlamtsqr_
rsim_stub 2089, zlangb_
rsim_stub 2090, zlange_
rsim_stub 2091, zlangt_
rsim_stub 2092, zlanhb_
rsim_stub 2093, zlanhe_
rsim_stub 2094, zlanhf_
rsim_stub 2095, zlanhp_
rsim_stub 2096, zlanhs_
rsim_stub 2097, zlanht_
rsim_stub 2098, zlansb_
rsim_stub 2099, zlansp_
rsim_stub 2100, zlansy_
rsim_stub 2101, zlantb_
rsim_stub 2102, zlantp_
rsim_stub 2103, zlantr_
rsim_stub 2104, zlapll_
rsim_stub 2105, zlapmr_
rsim_stub 2106, zlapmt_
rsim_stub 2107, zlaqgb_
rsim_stub 2108, zlaqge_
rsim_stub 2109, zlaqhb_
rsim_stub 2110, zlaqhe_
rsim_stub 2111, zlaqhp_
rsim_stub 2112, zlaqp2_
rsim_stub 2113, zlaqp2rk_
rsim_stub 2114, zlaqp3rk_
rsim_stub 2115, zlaqps_
rsim_stub 2116, zlaqr0_
rsim_stub 2117, zlaqr1_
rsim_stub 2118, zlaqr2_
rsim_stub 2119, zlaqr3_
rsim_stub 2120, zlaqr4_
rsim_stub 2121, zlaqr5_
rsim_stub 2122, zlaqsb_
rsim_stub 2123, zlaqsp_
rsim_stub 2124, zlaqsy_
rsim_stub 2125, zlaqz0_
rsim_stub 2126, zlaqz1_
rsim_stub 2127, zlaqz2_
rsim_stub 2128, zlaqz3_
rsim_stub 2129, zlar1v_
rsim_stub 2130, zlar2v_
rsim_stub 2131, zlarcm_
rsim_stub 2132, zlarf_
rsim_stub 2133, zlarfb_
rsim_stub 2134, zlarfb_gett_
rsim_stub 2135, zlarfg_
rsim_stub 2136, zlarfgp_
rsim_stub 2137, zlarft_
rsim_stub 2138, zlarfx_
rsim_stub 2139, zlarfy_
rsim_stub 2140, zlargv_
rsim_stub 2141, zlarnv_
rsim_stub 2142, zlarrv_
rsim_stub 2143, zlartg_
rsim_stub 2144, zlartv_
rsim_stub 2145, zlarz_
rsim_stub 2146, zlarzb_
rsim_stub 2147, zlarzt_
rsim_stub 2148, zlascl_
rsim_stub 2149, zlaset_
rsim_stub 2150, zlasr_
rsim_stub 2151, zlassq_
rsim_stub 2152, zlaswlq_
rsim_stub 2153, zlaswp_
rsim_stub 2154, zlasyf_
rsim_stub 2155, zlasyf_aa_
rsim_stub 2156, zlasyf_rk_
rsim_stub 2157, zlasyf_rook_
rsim_stub 2158, zlat2c_
rsim_stub 2159, zlatbs_
rsim_stub 2160, zlatdf_
rsim_stub 2161, zlatps_
rsim_stub 2162, zlatrd_
rsim_stub 2163, zlatrs3_
rsim_stub 2164, zlatrs_
rsim_stub 2165, zlatrz_
rsim_stub 2166, zlatsqr_
rsim_stub 2167, zlatzm_
rsim_stub 2168, zlaunhr_col_getrfnp2_
rsim_stub 2169, zlaunhr_col_getrfnp_
rsim_stub 2170, zlauu2_
rsim_stub 2171, zlauum_
rsim_stub 2172, zomatcopy_
rsim_stub 2173, zpbcon_
rsim_stub 2174, zpbequ_
rsim_stub 2175, zpbrfs_
rsim_stub 2176, zpbstf_
rsim_stub 2177, zpbsv_
rsim_stub 2178, zpbsvx_
rsim_stub 2179, zpbtf2_
rsim_stub 2180, zpbtrf_
rsim_stub 2181, zpbtrs_
rsim_stub 2182, zpftrf_
rsim_stub 2183, zpftri_
rsim_stub 2184, zpftrs_
rsim_stub 2185, zpocon_
rsim_stub 2186, zpoequ_
rsim_stub 2187, zpoequb_
rsim_stub 2188, zporfs_
rsim_stub 2189, zposv_
rsim_stub 2190, zposvx_
rsim_stub 2191, zpotf2_
rsim_stub 2192, zpotrf2_
rsim_stub 2193, zpotrf_
rsim_stub 2194, zpotri_
rsim_stub 2195, zpotrs_
rsim_stub 2196, zppcon_
rsim_stub 2197, zppequ_
rsim_stub 2198, zpprfs_
rsim_stub 2199, zppsv_
rsim_stub 2200, zppsvx_
rsim_stub 2201, zpptrf_
rsim_stub 2202, zpptri_
rsim_stub 2203, zpptrs_
rsim_stub 2204, zpstf2_
rsim_stub 2205, zpstrf_
rsim_stub 2206, zptcon_
rsim_stub 2207, zpteqr_
rsim_stub 2208, zptrfs_
rsim_stub 2209, zptsv_
rsim_stub 2210, zptsvx_
rsim_stub 2211, zpttrf_
rsim_stub 2212, zpttrs_
rsim_stub 2213, zptts2_
rsim_stub 2214, zrot_
rsim_stub 2215, zrotg_
rsim_stub 2216, zrscl_
rsim_stub 2217, zsbmv_
rsim_stub 2218, zscal_
rsim_stub 2219, zspcon_
rsim_stub 2220, zspmv_
rsim_stub 2221, zspr2_
rsim_stub 2222, zspr_
rsim_stub 2223, zsprfs_
rsim_stub 2224, zspsv_
rsim_stub 2225, zspsvx_
rsim_stub 2226, zsptrf_
rsim_stub 2227, zsptri_
rsim_stub 2228, zsptrs_
rsim_stub 2229, zstedc_
rsim_stub 2230, zstegr_
rsim_stub 2231, zstein_
rsim_stub 2232, zstemr_
rsim_stub 2233, zsteqr_
rsim_stub 2234, zswap_
rsim_stub 2235, zsycon_
rsim_stub 2236, zsycon_3_
rsim_stub 2237, zsycon_rook_
rsim_stub 2238, zsyconv_
rsim_stub 2239, zsyconvf_
rsim_stub 2240, zsyconvf_rook_
rsim_stub 2241, zsyequb_
rsim_stub 2242, zsymm_
rsim_stub 2243, zsymv_
rsim_stub 2244, zsyr2_
rsim_stub 2245, zsyr2k_
rsim_stub 2246, zsyr_
rsim_stub 2247, zsyrfs_
rsim_stub 2248, zsyrk_
rsim_stub 2249, zsysv_
rsim_stub 2250, zsysv_aa_
rsim_stub 2251, zsysv_aa_2stage_
rsim_stub 2252, zsysv_rk_
rsim_stub 2253, zsysv_rook_
rsim_stub 2254, zsysvx_
rsim_stub 2255, zsyswapr_
rsim_stub 2256, zsytf2_
rsim_stub 2257, zsytf2_rk_
rsim_stub 2258, zsytf2_rook_
rsim_stub 2259, zsytrf_
rsim_stub 2260, zsytrf_aa_
rsim_stub 2261, zsytrf_aa_2stage_
rsim_stub 2262, zsytrf_rk_
rsim_stub 2263, zsytrf_rook_
rsim_stub 2264, zsytri2_
rsim_stub 2265, zsytri2x_
rsim_stub 2266, zsytri_
rsim_stub 2267, zsytri_3_
rsim_stub 2268, zsytri_3x_
rsim_stub 2269, zsytri_rook_
rsim_stub 2270, zsytrs2_
rsim_stub 2271, zsytrs_
rsim_stub 2272, zsytrs_3_
rsim_stub 2273, zsytrs_aa_
rsim_stub 2274, zsytrs_aa_2stage_
rsim_stub 2275, zsytrs_rook_
rsim_stub 2276, ztbcon_
rsim_stub 2277, ztbmv_
rsim_stub 2278, ztbrfs_
rsim_stub 2279, ztbsv_
rsim_stub 2280, ztbtrs_
rsim_stub 2281, ztfsm_
rsim_stub 2282, ztftri_
rsim_stub 2283, ztfttp_
rsim_stub 2284, ztfttr_
rsim_stub 2285, ztgevc_
rsim_stub 2286, ztgex2_
rsim_stub 2287, ztgexc_
rsim_stub 2288, ztgsen_
rsim_stub 2289, ztgsja_
rsim_stub 2290, ztgsna_
rsim_stub 2291, ztgsy2_
rsim_stub 2292, ztgsyl_
rsim_stub 2293, ztpcon_
rsim_stub 2294, ztplqt2_
rsim_stub 2295, ztplqt_
rsim_stub 2296, ztpmlqt_
rsim_stub 2297, ztpmqrt_
rsim_stub 2298, ztpmv_
rsim_stub 2299, ztpqrt2_
rsim_stub 2300, ztpqrt_
rsim_stub 2301, ztprfb_
rsim_stub 2302, ztprfs_
rsim_stub 2303, ztpsv_
rsim_stub 2304, ztptri_
rsim_stub 2305, ztptrs_
rsim_stub 2306, ztpttf_
rsim_stub 2307, ztpttr_
rsim_stub 2308, ztrcon_
rsim_stub 2309, ztrevc3_
rsim_stub 2310, ztrevc_
rsim_stub 2311, ztrexc_
rsim_stub 2312, ztrmm_
rsim_stub 2313, ztrmv_
rsim_stub 2314, ztrrfs_
rsim_stub 2315, ztrsen_
rsim_stub 2316, ztrsm_
rsim_stub 2317, ztrsna_
rsim_stub 2318, ztrsv_
rsim_stub 2319, ztrsyl3_
rsim_stub 2320, ztrsyl_
rsim_stub 2321, ztrti2_
rsim_stub 2322, ztrtri_
rsim_stub 2323, ztrtrs_
rsim_stub 2324, ztrttf_
rsim_stub 2325, ztrttp_
rsim_stub 2326, ztzrqf_
rsim_stub 2327, ztzrzf_
rsim_stub 2328, zunbdb1_
rsim_stub 2329, zunbdb2_
rsim_stub 2330, zunbdb3_
rsim_stub 2331, zunbdb4_
rsim_stub 2332, zunbdb5_
rsim_stub 2333, zunbdb6_
rsim_stub 2334, zunbdb_
rsim_stub 2335, zuncsd2by1_
rsim_stub 2336, zuncsd_
rsim_stub 2337, zung2l_
rsim_stub 2338, zung2r_
rsim_stub 2339, zungbr_
rsim_stub 2340, zunghr_
rsim_stub 2341, zungl2_
rsim_stub 2342, zunglq_
rsim_stub 2343, zungql_
rsim_stub 2344, zungqr_
rsim_stub 2345, zungr2_
rsim_stub 2346, zungrq_
rsim_stub 2347, zungtr_
rsim_stub 2348, zungtsqr_
rsim_stub 2349, zungtsqr_row_
rsim_stub 2350, zunhr_col_
rsim_stub 2351, zunm22_
rsim_stub 2352, zunm2l_
rsim_stub 2353, zunm2r_
rsim_stub 2354, zunmbr_
rsim_stub 2355, zunmhr_
rsim_stub 2356, zunml2_
rsim_stub 2357, zunmlq_
rsim_stub 2358, zunmql_
rsim_stub 2359, zunmqr_
rsim_stub 2360, zunmr2_
rsim_stub 2361, zunmr3_
rsim_stub 2362, zunmrq_
rsim_stub 2363, zunmrz_
rsim_stub 2364, zunmtr_
rsim_stub 2365, zupgtr_
rsim_stub 2366, zupmtr_

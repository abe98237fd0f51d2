simcore::leaf!(plonky::Pallas, plonky::Vesta);
